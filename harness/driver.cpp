#include "drv.hpp"
#include "flbwt.hpp"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

// hooks of the library (FLBWT_VERIF_HOOKS)
uint64_t force_max = 0;
thread_local uint64_t seen_max = 0;
thread_local int seen_width = 0;
uint64_t force_last = 0;
bool use_force_last = false;
extern "C" uint64_t flbwt_verif_max_value(uint64_t m) { seen_max = m; return force_max ? force_max : m; }
extern "C" void flbwt_verif_width(int w) { seen_width = w; hx::width_event(w); }
extern "C" void flbwt_verif_result(flbwt::BWT_result *B, uint64_t) { if (use_force_last && B) { B->last = force_last; hx::capture_header = true; } }

int main(int argc, char **argv)
{
    Args a;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--mode") a.mode = v;
        else if (k == "--in") a.in = v;
        else if (k == "--out") a.out = v;
        else if (k == "--dir") a.dir = v;
        else if (k == "--opt") a.opt = v;
        else if (k == "--seed") a.seed = strtoull(v.c_str(), NULL, 10);
        else if (k == "--tier") a.thorough = v == "thorough";
        else if (k == "--shard") a.shard = atoi(v.c_str());
        else if (k == "--shards") a.shards = atoi(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    std::vector<hx::Case> cs;
    if (a.mode == "packed") mode_packed(a, cs);
    else if (a.mode == "queue") mode_queue(a, cs);
    else if (a.mode == "split") mode_split(a, cs);
    else if (a.mode == "record") mode_record(a, cs);
    else if (a.mode == "dict") mode_dict(a, cs);
    else if (a.mode == "bwt") mode_bwt(a, cs);
    else if (a.mode == "decomp") mode_decomp(a, cs);
    else if (a.mode == "names") mode_names(a, cs);
    else if (a.mode == "lockstep") mode_lockstep(a, cs);
    else if (a.mode == "induce") mode_induce(a, cs);
    else if (a.mode == "widths") mode_widths(a, cs);
    else if (a.mode == "sais") mode_sais(a, cs);
    else if (a.mode == "file") mode_file(a, cs);
    else if (a.mode == "own") mode_own(a, cs);
    else if (a.mode == "life") mode_life(a, cs);
    else if (a.mode == "iso") mode_iso(a, cs);
    else if (a.mode == "space") mode_space(a, cs);
    else if (a.mode == "work") mode_work(a, cs);
    else { fprintf(stderr, "unknown mode\n"); return 2; }
    if (cs.empty()) { fprintf(stderr, "no cases\n"); return 2; }
    return hx::run_cases(cs, a.out, a.shard, a.shards);
}
