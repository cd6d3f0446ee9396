#pragma once
#include "hx.hpp"
#include <stdexcept>
struct Args
{
    std::string mode, in, out, dir;
    uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, shards = 1;
    std::string opt;
};
void mode_packed(const Args &, std::vector<hx::Case> &);
void mode_queue(const Args &, std::vector<hx::Case> &);
void mode_split(const Args &, std::vector<hx::Case> &);
void mode_record(const Args &, std::vector<hx::Case> &);
void mode_dict(const Args &, std::vector<hx::Case> &);
void mode_bwt(const Args &, std::vector<hx::Case> &);
void mode_decomp(const Args &, std::vector<hx::Case> &);
void mode_names(const Args &, std::vector<hx::Case> &);
void mode_lockstep(const Args &, std::vector<hx::Case> &);
void mode_induce(const Args &, std::vector<hx::Case> &);
void mode_widths(const Args &, std::vector<hx::Case> &);
void mode_sais(const Args &, std::vector<hx::Case> &);
void mode_file(const Args &, std::vector<hx::Case> &);
void mode_own(const Args &, std::vector<hx::Case> &);
void mode_life(const Args &, std::vector<hx::Case> &);
void mode_iso(const Args &, std::vector<hx::Case> &);
void mode_space(const Args &, std::vector<hx::Case> &);
void mode_work(const Args &, std::vector<hx::Case> &);
