#pragma once
#include "sim.h"
/* A scripted external program: what it reads, when it writes, how it ends. Its history is kept for the oracles. */
struct Spec {
    enum Mode { READ_ALL, STREAM, WRITE_FIRST, IGNORE_STDIN, CLOSE_STDIN, READ_SOME, CLOSE_OUT_EARLY } mode = READ_ALL;
    std::function<string(const string &)> transform = [](const string &s) { return s; };
    string pre;                 /* WRITE_FIRST: written before reading; IGNORE/CLOSE/READ_SOME: the whole output */
    size_t read_limit = 0;
    int exit_code = 0, kill_sig = 0;
    long die_after_out = -1;    /* dies (kill_sig or exit_code) once so many bytes were written */
    long die_after_in = -1;     /* dies once so many bytes were read */
    u32 slow_us = 0;            /* sleeps between steps */
    bool hang_after_in = false; /* never ends after reading (until killed) */
    bool close_first = false;   /* WRITE_FIRST: closes stdout before it reads */
    bool hold_open = false;     /* keeps running for a while after closing stdout */
    /* history */
    bool started = false, saw_eof = false, ended = false, got_epipe = false, died_early = false, hung = false;
    string received, wrote, full; std::map<string, string> env; string cmd; int pid = 0;
    int final_status = -1;
    bool clean() const { return started && ended && !died_early && final_status == 0 && !got_epipe; }
};
Prog *script_prog(Spec *s);
string gen_text(size_t max_len, bool rich);    /* document text, sizes and characters from the workload stream */
string gen_word();
size_t gen_size(size_t max_len);
const char *mode_name(int m);
