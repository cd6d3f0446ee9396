// Driver modes for files: scenarios of FileXform.tla acted out on real files.
#include "drv.hpp"
#include "gen.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "flbwt.hpp"
using namespace hx;
using std::string;
using std::to_string;
using std::vector;
extern uint64_t force_last;
extern bool use_force_last;

struct Scn
{
    string in = "file", out = "absent"; // as in FileXform.tla
    long room = -1;
    long lost = 0;
    Text text;
    vector<int> before;                 // {-1}: no file
    string how;                         // variant: alias same|sym|hard|dot, dir names, ...
    Fault::What fault = Fault::NONE;
    long nth = 0;
    uint64_t bytes = 0;
};
static int count_fds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
static bool read_file(const string &p, string &out)
{
    struct stat st;
    out.clear();
    if (stat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return false;
    if (st.st_size > 1L << 30) // a hole, known by its size and times
    {
        out = to_string(st.st_size) + " " + to_string(st.st_mtim.tv_sec) + " " + to_string(st.st_mtim.tv_nsec);
        return true;
    }
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char b[65536];
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) out.append(b, (size_t)k);
    close(fd);
    return true;
}
static void put_file(const string &p, const void *d, size_t n, mode_t mode = 0644)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) _exit(95);
    size_t done = 0;
    while (done < n)
    {
        ssize_t k = write(fd, (const char *)d + done, n - done);
        if (k <= 0) _exit(95);
        done += (size_t)k;
    }
    close(fd);
    if (chmod(p.c_str(), mode) != 0) _exit(95);
}
static string content(const string &p) // JSON: bytes, or [-1]
{
    string s;
    if (!read_file(p, s)) return "[-1]";
    return arr((const uint8_t *)s.data(), s.size());
}
static string short_file() // a file that delivers less than its size
{
    for (const char *p : {"/sys/kernel/uevent_seqnum", "/sys/devices/system/cpu/online", "/sys/devices/system/cpu/possible"})
    {
        struct stat st;
        int fd = open(p, O_RDONLY);
        if (fd < 0) continue;
        char b[8192];
        ssize_t k = 0, t = 0;
        while ((k = read(fd, b, sizeof b)) > 0) t += k;
        off_t e = lseek(fd, 0, SEEK_END);
        bool ok = fstat(fd, &st) == 0 && st.st_size > t && t > 0 && e == st.st_size;
        close(fd);
        if (ok) return p;
    }
    return "";
}

static void one_file(const Args &A, const Scn &c, string &o)
{
    string d = A.dir + "/w" + to_string(getpid());
    if (mkdir(d.c_str(), 0777) != 0 && errno != EEXIST) _exit(95);
    chmod(d.c_str(), 0777);
    string in = d + "/in", out = d + "/out", locked = d + "/locked", inp = in, outp = out;
    // as nobody where permissions matter, and wherever a path outside the scratch directory is named
    bool unpriv = c.in == "denied" || c.out == "denied" || c.how == "/dev/full" || c.how == "proc" || c.how == "sysfs";
    vector<string> rm, rd;
    bool odd = c.how == "odd names", rel = c.how == "relative";
    if (odd) { in = d + "/%s i\n\xff*"; out = d + "/-o %n\\"; inp = in; outp = out; }
    if (c.how == "read-only input") unpriv = true;
    // the input
    int keep = -1;
    if (c.in == "file" || c.in == "short" || c.in == "denied")
    {
        put_file(in, c.text.data(), c.text.size(), c.in == "denied" ? 0 : c.how == "read-only input" ? 0444 : 0644);
        rm.push_back(in);
        if (c.how == "linked input")
        {
            inp = d + "/to in";
            if (symlink("in", inp.c_str()) != 0) _exit(95);
            rm.push_back(inp);
        }
    }
    if (c.in == "empty") { put_file(in, "", 0); rm.push_back(in); }
    if (c.in == "large")
    {
        put_file(in, c.text.data(), c.text.size());
        if (truncate(in.c_str(), 6L << 30) != 0) { unlink(in.c_str()); rmdir(d.c_str()); return; }
        rm.push_back(in);
    }
    if (c.in == "dir") { if (mkdir(in.c_str(), 0755) != 0) _exit(95); rd.push_back(in); }
    if (c.in == "fifo")
    {
        if (c.how == "proc") inp = "/proc/version";
        else
        {
            if (mkfifo(in.c_str(), 0644) != 0) _exit(95);
            rm.push_back(in);
            keep = open(in.c_str(), O_RDWR | O_CLOEXEC);
            if (write(keep, "banana", 6) != 6) _exit(95);
        }
    }
    if (c.in == "missing")
    {
        if (c.how == "empty path") inp = "";
        if (c.how == "no directory") inp = d + "/none/in";
        if (c.how == "slash") { put_file(in, "abc", 3); rm.push_back(in); inp = in + "/"; }
        if (c.how == "loop") { if (symlink("in", in.c_str()) != 0) _exit(95); rm.push_back(in); }
        if (c.how == "dangling") { if (symlink("nothing", in.c_str()) != 0) _exit(95); rm.push_back(in); }
        if (c.how == "long") inp = d + "/" + string(300, 'x');
    }
    string shortf;
    if (c.in == "short" && c.how == "sysfs")
    {
        shortf = short_file();
        if (shortf.empty()) { for (auto &f : rm) unlink(f.c_str()); rmdir(d.c_str()); return; }
        inp = shortf;
    }
    // the output
    string olds;
    for (int b : c.before) olds.push_back((char)b);
    if (c.out == "old" && c.how == "/dev/full") outp = "/dev/full";
    else if (c.out == "old") { put_file(out, olds.data(), olds.size()); rm.push_back(out); }
    if (c.out == "absent") rm.push_back(out);
    if (c.how == "linked output")
    {
        outp = d + "/to out";
        if (symlink("out", outp.c_str()) != 0) _exit(95);
        rm.push_back(outp);
    }
    if (c.how == "older input" || c.how == "newer input")
    { // times must not matter
        struct timespec t[2] = {{1000000000, 0}, {1000000000, 0}};
        if (utimensat(AT_FDCWD, (c.how == "older input" ? in : out).c_str(), t, 0) != 0) _exit(95);
    }
    if (c.out == "alias")
    {
        if (c.how == "sym") { if (symlink("in", out.c_str()) != 0) _exit(95); rm.push_back(out); }
        else if (c.how == "hard") { if (link(in.c_str(), out.c_str()) != 0) _exit(95); rm.push_back(out); }
        else if (c.how == "dot") outp = d + "/./in";
        else outp = in;
    }
    if (c.out == "dir") { if (mkdir(out.c_str(), 0777) != 0) _exit(95); rd.push_back(out); }
    if (c.out == "nodir") outp = c.how == "empty path" ? "" : c.how == "slash" ? out + "/" : d + "/none/out";
    if (c.out == "denied")
    {
        if (c.how == "locked directory")
        {
            if (mkdir(locked.c_str(), 0755) != 0) _exit(95);
            rd.push_back(locked);
            outp = locked + "/out";
        }
        else { put_file(out, "keep", 4, 0444); rm.push_back(out); }
    }
    if (unpriv && c.out != "denied") { if (c.out == "old" && c.how != "/dev/full" && chmod(out.c_str(), 0666) != 0) _exit(95); }
    string before = content(outp), in0, in1;
    bool had = read_file(inp, in0);
    if (c.in == "short" && c.how != "sysfs") in0.resize((size_t)c.bytes);
    // run
    struct Shared { int fds; long live; int bad; int hit; char result[16]; char why[200]; };
    Shared *sh = (Shared *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid < 0) _exit(95);
    if (pid == 0)
    {
        signal(SIGALRM, SIG_DFL);
        signal(SIGPROF, SIG_DFL);
        signal(SIGXFSZ, SIG_IGN);
        alarm(200);
        if (unpriv && geteuid() == 0 && (setgroups(0, NULL) != 0 || setgid(65534) != 0 || setuid(65534) != 0)) { strcpy(sh->result, "skip"); _exit(0); }
        if (unpriv && c.in == "denied" && access(inp.c_str(), R_OK) == 0) { strcpy(sh->result, "skip"); _exit(0); }
        if (c.how == "sysfs" && access(inp.c_str(), R_OK) != 0) { strcpy(sh->result, "skip"); _exit(0); }
        if (c.how == "/dev/full" && access(outp.c_str(), W_OK) != 0) { strcpy(sh->result, "skip"); _exit(0); }
        if (c.out == "denied" && access(outp.c_str(), F_OK) == 0 && access(outp.c_str(), W_OK) == 0) { strcpy(sh->result, "skip"); _exit(0); }
        if (c.room >= 0 && c.how != "/dev/full")
        {
            struct rlimit rl = {(rlim_t)c.room, (rlim_t)c.room};
            if (setrlimit(RLIMIT_FSIZE, &rl) != 0) { strcpy(sh->result, "skip"); _exit(0); }
        }
        if (c.in == "large")
        { // less memory than the file is long
            struct rlimit rl = {3UL << 30, 3UL << 30};
            if (setrlimit(RLIMIT_AS, &rl) != 0) { strcpy(sh->result, "skip"); _exit(0); }
        }
        if (rel)
        {
            if (chdir(d.c_str()) != 0) _exit(95);
            inp = "in";
            outp = "out";
        }
        int f0 = count_fds();
        mem_reset();
        mem.fill = c.text.size() % 2 ? 0xFF : 256;
        fault = Fault();
        fault.what = c.fault;
        fault.nth = c.nth;
        fault.bytes = c.bytes;
        fault.path = c.fault == Fault::FCLOSE_W ? outp : inp;
        const char *res = "ok";
        string what;
        enter();
        try { flbwt::bwt_file(inp.c_str(), outp.c_str()); }
        catch (const std::invalid_argument &e) { res = "invalid"; }
        catch (const std::exception &e) { res = "error"; }
        catch (...) { res = "other"; }
        leave();
        sh->hit = fault.hit;
        fault = Fault();
        sh->live = mem.live;
        sh->bad = mem.bad;
        strncpy(sh->why, mem.why.c_str(), 150);
        sh->fds = count_fds() - f0;
        strcpy(sh->result, res);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        strcpy(sh->result, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) _exit(95);
    string after = content(outp);
    bool has = read_file(inp, in1);
    int insame = had == has && in0 == in1;
    string res = sh->result;
    if (res != "skip" && !(c.fault != Fault::NONE && !sh->hit && c.in == "short"))
    {
        // an injected fault that was not met leaves an ordinary run
        bool inj = c.fault != Fault::NONE && sh->hit;
        string rin = c.in;
        string rout = c.out;
        long room = c.room, lost = 0;
        if (inj && c.fault == Fault::FCLOSE_W) lost = c.lost;
        else if (inj && c.fault == Fault::FOPEN_W) rout = "denied";
        else if (inj && c.fault == Fault::FOPEN_R) rin = "denied";
        else if (inj && c.fault != Fault::FREAD_TRUNC) room = 0;
        string w = "\"sa\":[],\"isa\":[]";
        if (rin == "file")
        {
            Witness wt(c.text);
            w = "\"sa\":" + nums(wt.sa) + ",\"isa\":" + nums(wt.isa);
        }
        o += "{\"ev\":\"file\",\"s\":{\"in\":\"" + rin + "\",\"out\":\"" + rout + "\",\"room\":" + to_string(room) + ",\"lost\":" + to_string(lost) + "},\"how\":\"" + c.how + "\",\"fault\":" + to_string(c.fault) +
             ",\"result\":\"" + res + "\",\"T\":" + (rin == "file" ? arr(c.text.data(), c.text.size()) : "[]") + "," + w + ",\"before\":" + before + ",\"after\":" + after +
             ",\"insame\":" + to_string(insame) + ",\"fds\":" + to_string(sh->fds) + ",\"live\":" + to_string(sh->live) + ",\"bad\":" + to_string(sh->bad) + ",\"why\":\"" + sh->why + "\"}\n";
    }
    munmap(sh, 4096);
    if (keep >= 0) close(keep);
    for (auto &f : rm) unlink(f.c_str());
    for (auto &f : rd) rmdir(f.c_str());
    unlink(out.c_str());
    unlink((locked + "/out").c_str());
    rmdir(d.c_str());
}

// a very large row number: what the first 8 bytes written are
static void one_header(const Args &A, uint64_t last, string &o)
{
    string d = A.dir + "/h" + to_string(getpid());
    mkdir(d.c_str(), 0777);
    put_file(d + "/in", "banana", 6);
    struct Shared { int n; uint8_t b[8]; };
    static Shared *sh;
    sh = (Shared *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0)
    {
        signal(SIGALRM, SIG_DFL);
        alarm(20);
        force_last = last;
        use_force_last = true;
        captured.clear();
        captured_cb = []() { memcpy(sh->b, captured.data(), 8); sh->n = 8; _exit(0); };
        enter();
        try { flbwt::bwt_file((d + "/in").c_str(), (d + "/out").c_str()); } catch (...) {}
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (sh->n == 8) o += "{\"ev\":\"header\",\"last\":" + bytes8(last) + ",\"head\":" + nums(sh->b, 8) + "}\n";
    munmap(sh, 4096);
    unlink((d + "/in").c_str());
    unlink((d + "/out").c_str());
    rmdir(d.c_str());
}
static void one_null(bool null, bool give, string &o)
{
    mem_reset();
    const char *res = "ok";
    uint8_t *p = (uint8_t *)malloc(8);
    memcpy(p, "banana\0", 8);
    enter();
    try { flbwt::bwt_string(null ? NULL : p, null ? 6 : 0, give); }
    catch (const std::invalid_argument &e) { res = "invalid"; }
    catch (const std::exception &e) { res = "error"; }
    catch (...) { res = "other"; }
    leave();
    bool same = memcmp(p, "banana\0", 8) == 0; // a released block is overwritten, or out of bounds
    o += string("{\"ev\":\"null\",\"null\":") + (null ? "1" : "0") + ",\"give\":" + (give ? "1" : "0") + ",\"result\":\"" + res + "\",\"insame\":" + (same ? "1" : "0") + ",\"live\":" + to_string(mem.live) + ",\"bad\":" + to_string(mem.bad) + "}\n";
    mem_reset();
}

void mode_file(const Args &A, vector<Case> &cs)
{
    string part = A.opt; // good | bad | fault, each preceded by the scenarios of the specification
    auto add = [&](const Scn &c) {
        cs.push_back({"{\"in\":\"" + c.in + "\",\"out\":\"" + c.out + "\",\"how\":\"" + c.how + "\",\"room\":" + to_string(c.room) + ",\"n\":" + to_string(c.text.size()) + ",\"fault\":" + to_string(c.fault) + "}",
                      [=, &A](string &o) { one_file(A, c, o); }});
    };
    auto wanted = [&](const Scn &c) {
        bool bad = c.in != "file" || (c.out != "absent" && c.out != "old" && c.out != "alias");
        bool flt = c.room >= 0 || c.fault != Fault::NONE;
        return part == "all" || (part == "bad" ? bad : part == "fault" ? flt || c.in == "short" || (c.in == "file" && bad) : !bad && !flt);
    };
    // scenarios of the specification
    if (!A.in.empty())
    {
        std::ifstream f(A.in);
        string line;
        uint64_t k = 0;
        while (std::getline(f, line))
        {
            std::istringstream ss(line);
            Scn c;
            string t;
            ss >> c.in >> c.out >> c.room >> c.lost >> t;
            Rng r(A.seed * 5 + ++k);
            vector<uint8_t> e = embedding(3, r);
            while (ss >> t && t != "b") c.text.push_back(e[(size_t)atoi(t.c_str())]);
            int b;
            while (ss >> b) c.before.push_back(b);
            if (c.lost > 0)
            {
                if (!interposed()) continue;
                c.fault = Fault::FCLOSE_W;
                c.bytes = (uint64_t)c.lost;
            }
            if (c.in == "short")
            {
                if (!interposed()) continue;
                c.fault = Fault::FREAD_TRUNC;
                c.bytes = c.text.size() - 1;
            }
            if (c.in == "large" && !interposed()) continue;
            if (c.out == "alias") { static const char *hows[] = {"same", "sym", "hard", "dot"}; c.how = hows[k % 4]; }
            if (wanted(c)) add(c);
        }
    }
    Rng r(A.seed);
    auto before_of = [&](size_t n, int k) {
        vector<int> b;
        size_t m = k == 0 ? 0 : k == 1 ? n / 2 : k == 2 ? n + 8 : k == 3 ? n + 5000 : 3;
        for (size_t i = 0; i < m; ++i) b.push_back((int)r.below(256));
        return b;
    };
    // plain transforms: every small text, then families
    auto good = [&](const Text &t, int k) {
        Scn c;
        c.text = t;
        static const char *al[] = {"same", "sym", "hard", "dot"};
        if (k % 4 == 0) c.out = "absent";
        else if (k % 4 == 3) { c.out = "alias"; c.how = al[(k / 4) % 4]; }
        else { c.out = "old"; c.before = before_of(t.size(), (k / 4) % 5); }
        if (wanted(c)) add(c);
    };
    if (part == "good" || part == "all")
    {
        bool slow = !interposed() && !A.thorough;
        int k = 0;
        for (int al = 2; al <= 4; ++al)
            for (int n = 1; n <= (al == 2 ? (A.thorough ? 11 : 7) : al == 3 ? (A.thorough ? 7 : 4) : (A.thorough ? 5 : 3)); ++n)
                for (uint64_t code = 0; code < power((uint64_t)al, n); ++code)
                {
                    Rng r2(A.seed * 9 + code);
                    vector<uint8_t> e = embedding(al, r2);
                    Text t = letters(code, al, n);
                    for (auto &x : t) x = e[x];
                    good(t, k++);
                }
        for (size_t n : {20, 100, 1000, 4080, 4087, 4088, 4089, 4096, 8184, 8192, 20000, 66000})
            for (int f = 0; f < (A.thorough ? 60 : n > 10000 ? (slow ? 0 : 3) : slow ? 4 : 12); ++f) good(family(f, n, A.seed * 50 + (uint64_t)f), (int)(k++));
        static const char *ways[] = {"older input", "newer input", "read-only input", "linked input", "linked output", "relative", "odd names"};
        for (const char *w : ways)
            for (int f = 0; f < (A.thorough ? 40 : 10); ++f)
                for (size_t n : {6, 300})
                {
                    Scn c;
                    c.how = w;
                    c.text = family(f, n, A.seed * 70 + (uint64_t)f);
                    if (f % 5 || string(w) == "newer input") { c.out = "old"; c.before = before_of(c.text.size(), f % 2 ? 2 : f % 5); }
                    add(c);
                }
        for (size_t n = 1; n <= 256; n += A.thorough ? 1 : 17) { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (uint8_t)(255 - i); good(t, k++); } // the whole text is the last row
        for (size_t n : {65535, 65536, 65537}) { Text t(n, 7); t[0] = 9; good(t, k++); }
        if (A.thorough) for (int f = 0; f < 8; ++f) good(family(f, 500000, A.seed + (uint64_t)f), k++);
        if (interposed())
            for (int b = 0; b < 64; ++b)
                for (uint64_t v : {(uint64_t)1 << b, ((uint64_t)1 << b) - 1, (uint64_t)(r.next() >> (63 - b))})
                    cs.push_back({"{\"header\":1}", [=, &A](string &o) { one_header(A, v, o); }});
    }
    // requests that must be rejected
    if (part == "bad" || part == "fault" || part == "all")
    {
        vector<std::pair<string, string>> ins = {{"missing", ""}, {"missing", "empty path"}, {"missing", "no directory"}, {"missing", "slash"}, {"missing", "loop"}, {"missing", "dangling"}, {"missing", "long"},
                                                 {"empty", ""}, {"dir", ""}, {"fifo", ""}, {"fifo", "proc"}, {"large", ""}, {"denied", ""}, {"short", "sysfs"}};
        for (auto &i : ins)
            for (int k = 0; k < 5; ++k)
            {
                if (i.first == "large" && !interposed()) continue; // address sanitizer needs much address space
                Scn c;
                c.in = i.first;
                c.how = i.second;
                c.text = {3, 1, 2};
                c.out = k == 0 ? "absent" : k == 4 && i.second != "empty path" && i.second != "slash" ? "nodir" : "old";
                if (c.out == "old") c.before = before_of(20, k);
                add(c);
            }
        for (auto &o : vector<std::pair<string, string>>{{"dir", ""}, {"nodir", ""}, {"nodir", "empty path"}, {"nodir", "slash"}, {"denied", ""}, {"denied", "locked directory"}})
            for (int f = 0; f < 4; ++f)
            {
                Scn c;
                c.out = o.first;
                c.how = o.second;
                c.text = family(f, 50, A.seed);
                add(c);
            }
        for (int f = 0; f < 3 && interposed(); ++f)
            for (Fault::What w : {Fault::FOPEN_R, Fault::FOPEN_W})
            {
                Scn c;
                c.fault = w;
                c.text = family(f, 50, A.seed);
                c.out = f == 0 ? "absent" : "old";
                if (f) c.before = before_of(20, f);
                add(c);
            }
        for (int n = 0; n < 2; ++n)
            for (int g = 0; g < 2; ++g)
                cs.push_back({"{\"null\":1}", [=](string &o) { one_null(n == 1, g == 1, o); }});
    }
    // reads and writes that are cut short
    if (part == "fault" || part == "all")
    {
        vector<Text> ts;
        for (size_t n : {1, 2, 3, 5, 12}) ts.push_back(family((int)n, n, A.seed));
        for (auto &t : ts)
            for (size_t room = 0; room < t.size() + 8; ++room)
                for (int k = 0; k < 3; ++k)
                {
                    Scn c;
                    c.text = t;
                    c.room = (long)room;
                    c.out = k == 0 ? "absent" : k == 1 ? "old" : "alias";
                    if (k == 1) c.before = before_of(0, 0);
                    c.how = k == 2 ? "same" : "";
                    add(c);
                }
        for (size_t n : {300, 4080, 4087, 4088, 4089, 4095, 4096, 4097, 5000, 8192, 12280, 20000, 70000})
        {
            Text t = family((int)n, n, A.seed), u(n, 7);
            u[0] = 9; // the whole text is the last row: one write
            vector<size_t> rooms = {0, 1, 7, 8, 9, n / 2, n, n + 1, n + 6, n + 7};
            for (size_t x : {(size_t)4095, (size_t)4096, (size_t)4097, (size_t)8191, (size_t)8192}) if (x < n + 8) rooms.push_back(x);
            for (size_t b = 4096; b < n + 8; b += 4096) { rooms.push_back(b); rooms.push_back(n + 8 - b); }
            for (int k = 0; k < (A.thorough ? 40 : 2); ++k) rooms.push_back(r.below(n + 8));
            if (n > 10000 && !A.thorough) rooms.resize(12);
            size_t x = 0;
            for (size_t room : rooms)
            {
                if (room >= n + 8) continue;
                Scn c;
                c.text = x++ % 2 ? t : u;
                c.room = (long)room;
                add(c);
            }
            for (auto &z : {t, u})
            {
                Scn c;
                c.text = z;
                c.out = "old";
                c.how = "/dev/full";
                c.room = 0;
                add(c);
            }
            if (!interposed()) continue;
            for (auto &z : {t, u})
            {
                for (uint64_t b : {(uint64_t)0, (uint64_t)1, (uint64_t)n - 1, r.below(n)})
                {
                    Scn c;
                    c.text = z;
                    c.fault = Fault::FREAD_SHORT;
                    c.bytes = b;
                    add(c);
                    c.fault = Fault::FREAD_TRUNC;
                    c.in = "short";
                    c.how = "cut";
                    c.out = "old";
                    c.before = before_of(9, 1);
                    add(c);
                }
                for (long nth = 0; nth < 4; ++nth)
                    for (uint64_t b : {(uint64_t)0, (uint64_t)1, (uint64_t)7, r.below(n)})
                    {
                        Scn c;
                        c.text = z;
                        c.fault = Fault::FWRITE_SHORT;
                        c.nth = nth;
                        c.bytes = b;
                        add(c);
                    }
                for (long l : {1L, 8L, (long)n, (long)n + 8})
                {
                    Scn c;
                    c.text = z;
                    c.fault = Fault::FCLOSE_W;
                    c.lost = l;
                    c.bytes = (uint64_t)l;
                    add(c);
                }
                for (Fault::What w : {Fault::FFLUSH, Fault::FSEEK, Fault::FTELL})
                {
                    Scn c;
                    c.text = z;
                    c.fault = w;
                    add(c);
                }
            }
        }
        for (int k = 0; k < 3; ++k)
        {
            Scn c;
            c.in = "short";
            c.how = "sysfs";
            c.text = {1, 2};
            c.out = k ? "old" : "absent";
            if (k) c.before = before_of(30, k);
            add(c);
        }
    }
}
