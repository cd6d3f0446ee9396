// The library's file transform as a process: 0 if it returned, 3 if it threw.
#include "flbwt.hpp"
#include <sys/resource.h>
#include <exception>
int main(int, char **argv)
{
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    try { flbwt::bwt_file(argv[1], argv[2]); }
    catch (...) { return 3; }
    return 0;
}
