#include "hx.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

namespace hx
{
Mem mem;
Fault fault;
int io_calls = 0;
bool capture_header = false;
std::string captured;
void (*captured_cb)() = nullptr;

std::string hex(const uint8_t *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    std::string s;
    s.reserve(2 * n);
    for (size_t i = 0; i < n; ++i)
    {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    return s;
}
std::string hex64(uint64_t v)
{
    char b[20];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
    return b;
}
std::string bytes8(uint64_t v)
{
    uint8_t b[8];
    for (int i = 0; i < 8; ++i)
        b[i] = (uint8_t)(v >> (56 - 8 * i));
    return nums(b, 8);
}
std::string arr(const uint8_t *p, size_t n) { return nums(p, n); }

static void on_prof(int) { _exit(97); }
static void on_alarm(int) { _exit(98); }

static void write_all(int fd, const std::string &s)
{
    size_t done = 0;
    while (done < s.size())
    {
        ssize_t k = write(fd, s.data() + done, s.size() - done);
        if (k < 0)
        {
            if (errno == EINTR) continue;
            _exit(96);
        }
        done += (size_t)k;
    }
}

int run_cases(std::vector<Case> &cases, const std::string &out, int shard, int shards)
{
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) { perror("open"); return 2; }
    volatile size_t *cur = (size_t *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<size_t> mine;
    for (size_t i = (size_t)shard; i < cases.size(); i += (size_t)shards)
        mine.push_back(i);
    size_t next = 0;
    int crashes = 0;
    while (next < mine.size())
    {
        cur[0] = next;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0)
        {
            signal(SIGPROF, on_prof);
            signal(SIGALRM, on_alarm);
            signal(SIGPIPE, SIG_IGN);
            struct rlimit nocore = {0, 0};
            setrlimit(RLIMIT_CORE, &nocore);
            for (size_t i = next; i < mine.size(); ++i)
            {
                cur[0] = i;
                int seconds = cases[mine[i]].seconds;
                struct itimerval tv = {{0, 0}, {seconds, 0}};
                setitimer(ITIMER_PROF, &tv, NULL);
                alarm((unsigned)seconds * 4 + 60);
                std::string lines;
                cases[mine[i]].run(lines);
                write_all(fd, lines);
            }
            cur[0] = mine.size();
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && cur[0] == mine.size())
            break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 96) { fprintf(stderr, "harness: cannot write\n"); return 2; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "harness: killed\n"); return 2; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 95) { fprintf(stderr, "harness: internal error\n"); return 2; }
        size_t at = cur[0];
        if (at >= mine.size()) { fprintf(stderr, "harness: died after the last case\n"); return 2; }
        bool hang = WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98);
        std::string ev = std::string("{\"ev\":\"") + (hang ? "hang" : "crash") + "\",\"how\":\"" +
                         (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) +
                         "\",\"case\":" + cases[mine[at]].desc + "}\n";
        write_all(fd, ev);
        next = at + 1;
        if (hang || ++crashes >= 10)
            break;
    }
    close(fd);
    return 0;
}
} // namespace hx
