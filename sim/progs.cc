#include "progs.h"
#include <algorithm>
#include <csignal>
const char *mode_name(int m) { static const char *n[] = {"read-all", "stream", "write-first", "ignore-stdin", "close-stdin", "read-some", "close-out-early"}; return n[m]; }
namespace {
struct ScriptProg : Prog {
    Spec *s; int phase = 0; string out; size_t off = 0; bool set_out = false; u64 steps = 0; bool eof = false;
    ScriptProg(Spec *x) : s(x) {}
    size_t chunk(size_t most) { u32 m = draw(S, 5); if (m == 1) return 1 + draw(S, (u32)std::min<size_t>(most, 7)); if (m == 2) return 1 + draw(S, (u32)std::min<size_t>(most, 512)); if (m == 3) return std::min<size_t>(most, 4096); return most; }
    void end(Proc &p, int st) { s->ended = true; s->final_status = st; if (st) s->died_early = true; child_exit(p, st); }
    int status() { return s->kill_sig ? s->kill_sig : (s->exit_code & 0xff) << 8; }
    bool maybe_die(Proc &p) {
        if ((s->die_after_out >= 0 && (long)s->wrote.size() >= s->die_after_out) || (s->die_after_in >= 0 && (long)s->received.size() >= s->die_after_in)) {
            s->died_early = true; fault_fired(s->kill_sig ? FK_CHILD_KILLED : s->exit_code ? FK_CHILD_NONZERO : FK_CHILD_EARLY_EXIT, s->cmd.c_str());
            s->ended = true; s->final_status = status(); child_exit(p, status()); return true;
        }
        return false;
    }
    long rd(Proc &p, size_t most) {
        string b; long n = child_read(p, 0, b, most);
        if (n > 0) s->received += b;
        if (n == 0) { eof = true; s->saw_eof = true; }
        return n;
    }
    /* 1 progress, 0 blocked, 2 all written, 3 dead */
    int wr(Proc &p) {
        if (off >= out.size()) return 2;
        size_t left = out.size() - off, n = std::min(left, chunk(left));
        if (s->die_after_out >= 0) n = std::min(n, (size_t)std::max<long>(1, s->die_after_out - (long)s->wrote.size()));
        long r = child_write(p, 1, out.data() + off, n);
        if (r == -1) return 0;
        if (r == -2) { s->got_epipe = true; end(p, SIGPIPE); return 3; }
        s->wrote.append(out, off, (size_t)r); off += (size_t)r; return 1;
    }
    R step(Proc &p) override {
        s->started = true; s->pid = p.pid; if (s->env.empty()) s->env = p.env;
        if (s->slow_us && (++steps & 1)) { p.wake = g->now_us + s->slow_us; if (steps == 1) fault_fired(FK_CHILD_SLOW, s->cmd.c_str()); return PROGRESS; }
        if (maybe_die(p)) return PROGRESS;
        if (s->hung) return BLOCKED;
        if (s->hang_after_in && eof) { s->hung = true; fault_fired(FK_CHILD_HANG, s->cmd.c_str()); return PROGRESS; }
        switch (s->mode) {
        case Spec::READ_ALL: case Spec::CLOSE_OUT_EARLY:
            if (!eof) { long n = rd(p, chunk(65536)); return n < 0 ? BLOCKED : PROGRESS; }
            if (!set_out) { out = s->full = s->transform(s->received); set_out = true; }
            break;
        case Spec::STREAM:
            /* a filter that copies as it goes (cat, sed): holds at most one buffer */
            if (off < out.size()) { int w = wr(p); return w == 0 ? BLOCKED : PROGRESS; }
            if (!eof) { size_t before = s->received.size(); long n = rd(p, chunk(8192)); if (n < 0) return BLOCKED; if (n > 0) { string t = s->received.substr(before); out += t; s->full += t; } return PROGRESS; }
            if (!set_out) { set_out = true; out += s->pre; s->full += s->pre; }
            break;
        case Spec::WRITE_FIRST:
            if (!set_out) { out = s->full = s->pre; set_out = true; return PROGRESS; }
            if (off < out.size()) { int w = wr(p); return w == 0 ? BLOCKED : PROGRESS; }
            if (s->close_first && phase == 0) { phase = 1; child_close(p, 1); return PROGRESS; }
            if (!eof) { long n = rd(p, chunk(65536)); return n < 0 ? BLOCKED : PROGRESS; }
            break;
        case Spec::IGNORE_STDIN: if (!set_out) { out = s->full = s->pre; set_out = true; } break;
        case Spec::CLOSE_STDIN: if (!set_out) { child_close(p, 0); out = s->full = s->pre; set_out = true; return PROGRESS; } break;
        case Spec::READ_SOME:
            if (!eof && s->received.size() < s->read_limit) { long n = rd(p, std::min(chunk(65536), s->read_limit - s->received.size())); return n < 0 ? BLOCKED : PROGRESS; }
            if (!set_out) { out = s->full = s->pre; set_out = true; }
            break;
        }
        int w = wr(p);
        if (w == 0) return BLOCKED;
        if (w != 2) return PROGRESS;
        if (s->mode == Spec::CLOSE_OUT_EARLY && phase == 0) { phase = 1; child_close(p, 1); return PROGRESS; }
        if (s->hold_open && phase < 2) { phase = 2; p.wake = g->now_us + 50000; return PROGRESS; }
        if (s->exit_code) fault_fired(FK_CHILD_NONZERO, s->cmd.c_str());
        if (s->kill_sig) fault_fired(FK_CHILD_KILLED, s->cmd.c_str());
        if (s->full.empty()) fault_fired(FK_CHILD_EMPTY, s->cmd.c_str());
        end(p, status());
        return PROGRESS;
    }
};
}
Prog *script_prog(Spec *s) { return new ScriptProg(s); }
size_t gen_size(size_t max_len) {
    switch (draw(W, 6)) {
    case 0: return draw(W, 40);
    case 1: return draw(W, 300);
    case 2: return draw(W, 5000);
    case 3: return std::min<size_t>(max_len, 4080 + draw(W, 40));
    case 4: return std::min<size_t>(max_len, 8170 + draw(W, 60));
    default: return max_len ? draw(W, (u32)max_len) : 0;
    }
}
string gen_word() { static const char *w[] = {"alpha", "beta", "gamma", "delta", "omega", "text", "word", "apex"}; return string(w[draw(W, 8)]) + std::to_string(draw(W, 1000)); }
string gen_text(size_t max_len, bool rich) {
    size_t n = gen_size(max_len); string o; u64 k = draw(W, 1u << 30);
    u32 mix = rich ? draw(W, 6) : 0; bool dense = mix == 5 && draw(W, 2);
    auto nx = [&k]() { k = k * 6364136223846793005ull + 1442695040888963407ull; return (u32)(k >> 33); };
    while (o.size() < n) {
        u32 r = nx() % 100;
        if (dense) { u32 c = nx() % 40; o += c < 31 ? (char)(1 + c) : c < 35 ? '"' : c < 38 ? '\\' : '\x7f'; continue; } /* mostly characters that need escapes */
        if (mix == 4 && r > 96) { o += (char)(1 + nx() % 31); continue; }
        if (r < 60 || !mix) { o += "w" + std::to_string(nx() % 100000); o += (nx() % 9 == 0) ? "\n" : " "; }
        else if (r < 70) o += "\"q\\uoted\\\" ";
        else if (r < 78) o += "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80 ";
        else if (r < 84) o += "\ttab\n\n";
        else if (r < 88) o += "back\\slash\\\\n ";
        else if (r < 91 && mix >= 2) { o += '\x01'; o += "\x1b[0m\x07"; }
        else if (r < 94) o += "\r\n";
        else o += "{\"k\": [1, 2], 'x': </tag>}\n";
    }
    o.resize(n);
    /* keep UTF-8 whole at the cut */
    while (!o.empty() && ((unsigned char)o.back() & 0xC0) == 0x80) o.pop_back();
    if (!o.empty() && ((unsigned char)o.back() & 0x80)) o.pop_back();
    return o;
}
