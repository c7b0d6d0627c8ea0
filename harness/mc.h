// Stateless bounded-exhaustive explorer used by every check in /verif.
//
// A "space" is a function that first *plans* (a sequence of choose() calls: the
// choice tree) and then *executes* the planned case on the real code, comparing
// with a reference model.  The explorer enumerates every leaf of the choice
// tree (depth-first, in canonical order), spread over worker processes by leaf
// ordinal.  Every worker is a fresh fork from the pristine state, so a case is
// reproducible from its choice sequence (or, when the code under test carries
// state between calls, from the worker's prefix of cases).
#ifndef MC_H
#define MC_H

#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#ifdef MC_COV
extern "C" void __gcov_dump(void);
#endif
namespace mc {

struct Failure : std::runtime_error {
    explicit Failure(const std::string& s) : std::runtime_error(s) {}
};

inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

const int MAXCH = 64;
struct Slot {                       // shared with the parent
    volatile long ordinal;          // ordinal of the case being executed
    volatile int nch;
    volatile int ch[MAXCH];
    volatile double started;        // 0: no case running
    volatile int known;             // index+1 of the known finding declared
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

inline std::vector<std::string>& known_ids()
{
    static std::vector<std::string> v;
    return v;
}

struct Ctx {
    // ---- plan
    std::vector<int> ch, radix;
    std::vector<std::pair<std::string,long> > labels;
    size_t pos = 0;
    bool replaying = false;
    // ---- bookkeeping
    int tier = 0;                   // -1 smoke, 0 quick, 1 thorough
    long ordinal = -1;
    long shard = 0, nshards = 1, resume = 0, upto = -1;
    bool planning_only = false;
    long executed = 0, calls = 0, nontrivial = 0;
    bool nontriv_case = false;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    Slot* slot = nullptr;
    uint64_t hash = 0;
    std::string note;
    int known_here = 0;
    bool did_mine = false;

    // one choice among 0..n-1
    long choose(long n, const char* label = nullptr)
    {
        if (n <= 0) throw std::logic_error("mc: empty choice");
        long r;
        if (pos < ch.size())
        {
            if (replaying && ch[pos] >= n) throw std::logic_error("mc: replay diverged");
            r = ch[pos];
            radix[pos] = (int) n;
        }
        else
        {
            ch.push_back(0);
            radix.push_back((int) n);
            r = 0;
        }
        pos++;
        if (label) labels.push_back(std::make_pair(std::string(label), r));
        return r;
    }
    long range(long lo, long hi, const char* label = nullptr)
    {
        long r = lo + choose(hi - lo + 1);
        if (label) labels.push_back(std::make_pair(std::string(label), r));
        return r;
    }
    long from(const std::vector<long>& v, const char* label = nullptr)
    {
        long r = v[choose((long) v.size())];
        if (label) labels.push_back(std::make_pair(std::string(label), r));
        return r;
    }
    long lim(long smoke, long quick, long thorough) const
    { return tier < 0 ? smoke : (tier == 0 ? quick : thorough); }
    bool thorough() const { return tier > 0; }
    bool smoke() const { return tier < 0; }

    // end of the plan: is this leaf to be executed here?
    bool mine()
    {
        did_mine = true;
        ordinal++;
        if (planning_only) return false;
        if (!replaying)
        {
            if (ordinal % nshards != shard) return false;
            if (ordinal < resume) return false;
            if (upto >= 0 && ordinal > upto) return false;
        }
        executed++;
        hash = 0;
        nontriv_case = false;
        known_here = 0;
        note.clear();
        if (slot)
        {
            slot->ordinal = ordinal;
            slot->nch = (int) std::min<size_t>(ch.size(), MAXCH);
            for (size_t i = 0; i < ch.size() && i < (size_t) MAXCH; i++) slot->ch[i] = ch[i];
            slot->known = 0;
            slot->started = now();
        }
        return true;
    }
    // ---- execution
    void call(long n = 1) { calls += n; }
    void observe(uint64_t v) { hash = mix(hash, v); }
    void interesting() { nontriv_case = true; }
    // a failure of this case (if any) is the recorded known finding `id`
    void known(const char* id)
    {
        auto& v = known_ids();
        for (size_t i = 0; i < v.size(); i++)
            if (v[i] == id)
            {
                known_here = (int) i + 1;
                if (slot) slot->known = known_here;
            }
    }
    std::string describe() const
    {
        std::ostringstream o;
        for (auto& l : labels) o << l.first << "=" << l.second << " ";
        if (!note.empty()) o << note;
        return o.str();
    }
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn))
    {
        char buf[4000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Failure(buf);
    }
    void check(bool ok, const char* what)
    { if (!ok) throw Failure(what); }
};

typedef void (*SpaceFn)(Ctx&);
struct Space {
    std::string name;
    SpaceFn fn;
    int mintier;     // -1: also in smoke (memory-safety) runs, 0: quick and up, 1: thorough only
    long shards;
};
inline std::vector<Space>& spaces()
{
    static std::vector<Space> v;
    return v;
}
struct Reg {
    Reg(const char* n, SpaceFn f, int mintier, long shards)
    {
        Space s; s.name = n; s.fn = f; s.mintier = mintier; s.shards = shards;
        spaces().push_back(s);
    }
};
#define MC_SPACE(name, mintier, shards) \
    static void space_##name(mc::Ctx& c); \
    static mc::Reg reg_##name(#name, space_##name, mintier, shards); \
    static void space_##name(mc::Ctx& c)

inline std::string seqstr(const std::vector<int>& v)
{
    std::ostringstream o;
    for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
    return o.str();
}
inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}

// run before each case: deterministic library randomness, base context
typedef void (*ResetFn)();
inline ResetFn& reset_hook() { static ResetFn f = nullptr; return f; }

// memory-safety runs: a wrong result is another property's business, only abnormal ends of the process count
inline bool& crash_only() { static bool b = false; return b; }

struct FailRec {
    std::string space, seq, desc, msg, kind;   // kind: mismatch, crash, timeout
    long ordinal = 0, shard = 0, nshards = 1;
    int known = 0;
};

inline std::string oneline(std::string s)
{
    for (auto& ch : s) if (ch == '\n' || ch == '\t') ch = ' ';
    if (s.size() > 1500) s.resize(1500);
    return s;
}

// DFS over the choice tree of one space
inline void explore(Space& sp, Ctx& c, FILE* out, long max_fail)
{
    long nfail = 0;
    for (;;)
    {
        c.pos = 0;
        c.labels.clear();
        c.did_mine = false;
        long before = c.executed;
        try
        {
            if (reset_hook() && !c.planning_only) { /* done lazily below */ }
            sp.fn(c);
            if (c.executed != before && c.nontriv_case) c.nontrivial++;
        }
        catch (std::exception& e)
        {
            if (c.executed == before) throw;
            std::string msg = e.what();
            if (crash_only() && dynamic_cast<Failure*>(&e)) goto leaf_done;
            if (!dynamic_cast<Failure*>(&e)) msg = "exception: " + msg;
            fprintf(out, "F\t%s\t%ld\t%d\t%s\t%s\n", seqstr(c.ch).c_str(), c.ordinal, c.known_here,
                    oneline(c.describe()).c_str(), oneline(msg).c_str());
            fflush(out);
            if (!c.known_here) nfail++;
        }
    leaf_done:
        if (c.executed != before)
        {
            if (c.outcomes.size() < 400000) c.outcomes.insert(c.hash);
            if (c.samples.size() < 2) c.samples.push_back(oneline(c.describe()));
            if (c.slot) c.slot->started = 0;
        }
        if (nfail >= max_fail) return;
        // next leaf
        c.ch.resize(c.pos);
        c.radix.resize(c.pos);
        while (!c.ch.empty() && c.ch.back() + 1 >= c.radix.back())
        {
            c.ch.pop_back();
            c.radix.pop_back();
        }
        if (c.ch.empty()) return;
        c.ch.back()++;
        if (c.upto >= 0 && c.ordinal >= c.upto) return;
    }
}

struct Job { int sp; long shard, resume; std::string file; pid_t pid; int slot; };

inline int harness_main(int argc, char** argv)
{
    int tier = 0, workers = 8, maxfail = 5;
    double limit = 60;
    std::string outp, only, replay, scratch = "/tmp", prefix;
    bool list = false, all = false, onefail = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nxt = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing arg\n"); exit(2); } return std::string(argv[++i]); };
        if (a == "--tier") { std::string t = nxt(); tier = t == "thorough" ? 1 : (t == "smoke" ? -1 : 0); }
        else if (a == "--workers") workers = atoi(nxt().c_str());
        else if (a == "--out") outp = nxt();
        else if (a == "--only") only = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--prefix") prefix = nxt();
        else if (a == "--scratch") scratch = nxt();
        else if (a == "--limit") limit = atof(nxt().c_str());
        else if (a == "--maxfail") maxfail = atoi(nxt().c_str());
        else if (a == "--known") { std::stringstream ss(nxt()); std::string t; while (std::getline(ss, t, ',')) known_ids().push_back(t); }
        else if (a == "--list") list = true;
        else if (a == "--all") all = true;
        else if (a == "--first") onefail = true;          // development: stop at the first failure
        else if (a == "--crash-only") crash_only() = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    auto find = [&](const std::string& n) -> int {
        for (size_t i = 0; i < spaces().size(); i++) if (spaces()[i].name == n) return (int) i;
        return -1;
    };
    if (!replay.empty())
    {
        // space:seq   run this case only, in this process
        size_t k = replay.find(':');
        int s = find(replay.substr(0, k));
        if (s < 0) { fprintf(stderr, "no such space\n"); return 2; }
        Ctx c; c.tier = tier; c.replaying = true;
        std::stringstream ss(replay.substr(k + 1)); std::string t;
        while (std::getline(ss, t, ',')) { c.ch.push_back(atoi(t.c_str())); c.radix.push_back(0); }
        try { spaces()[s].fn(c); }
        catch (std::exception& e)
        {
            if (c.executed == 0) { printf("ERROR %s\n", e.what()); return 2; }
            printf("FAIL %s :: %s\n", c.describe().c_str(), e.what());
            return crash_only() && dynamic_cast<Failure*>(&e) ? 0 : 1;
        }
        printf("OK %s\n", c.describe().c_str());
        return 0;
    }
    if (!prefix.empty())
    {
        // space:shard:nshards:ordinal   re-run a worker's history up to this case
        int s; long sh, ns, ord; char nm[200];
        if (sscanf(prefix.c_str(), "%199[^:]:%ld:%ld:%ld", nm, &sh, &ns, &ord) != 4) return 2;
        s = find(nm); if (s < 0) return 2;
        Ctx c; c.tier = tier; c.shard = sh; c.nshards = ns; c.upto = ord;
        std::string f = scratch + "/prefix.out." + std::to_string((long) getpid());
        FILE* o = fopen(f.c_str(), "w");
        explore(spaces()[s], c, o, 1000000);
        fclose(o);
        std::ifstream in(f); std::string line; bool bad = false;
        while (std::getline(in, line)) { if (line.find("\t" + std::to_string(ord) + "\t") != std::string::npos) bad = true; }
        unlink(f.c_str());
        printf(bad ? "FAIL\n" : "OK\n");
        return bad ? 1 : 0;
    }

    std::vector<int> sel;
    for (size_t i = 0; i < spaces().size(); i++)
    {
        if (spaces()[i].mintier > tier && only.empty()) continue;
        if (!only.empty())
        {
            std::stringstream ss(only); std::string t; bool ok = false;
            while (std::getline(ss, t, ',')) if (spaces()[i].name == t) ok = true;
            if (!ok) continue;
        }
        sel.push_back((int) i);
    }
    if (list) { for (int s : sel) printf("%s\n", spaces()[s].name.c_str()); return 0; }

    std::string dir = scratch + "/mc." + std::to_string((long) getpid());
    mkdir(dir.c_str(), 0700);
    Slot* slots = (Slot*) mmap(0, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Job> queue;
    for (int s : sel)
        for (long k = 0; k < spaces()[s].shards; k++)
        { Job j; j.sp = s; j.shard = k; j.resume = 0; j.pid = 0; j.slot = -1; queue.push_back(j); }
    // interleave so that long spaces do not come last
    std::stable_sort(queue.begin(), queue.end(), [](const Job& a, const Job& b) { return a.shard < b.shard; });
    std::vector<Job> running;
    std::vector<bool> used(workers, false);
    std::vector<FailRec> fails;
    struct Stat { long leaves = 0, executed = 0, calls = 0, nontriv = 0, done = 0; double secs = 0; std::vector<std::string> samples; bool cut = false; };
    std::map<int, Stat> stats;
    std::map<int, long> nfail;
    std::map<int, std::unordered_set<uint64_t> > outc;
    size_t qi = 0; long fileno_ = 0;
    std::vector<double> jobstart(workers, 0);
    std::vector<bool> killed(workers, false);
    fflush(stdout); fflush(stderr);
    while (qi < queue.size() || !running.empty())
    {
        while (qi < queue.size() && (int) running.size() < workers)
        {
            Job j = queue[qi++];
            if (onefail && !fails.empty() && !fails.back().known) { stats[j.sp].cut = true; continue; }
            if (!all && nfail[j.sp] >= maxfail) { stats[j.sp].cut = true; continue; }
            int sl = 0; while (used[sl]) sl++;
            j.slot = sl; used[sl] = true; killed[sl] = false;
            j.file = dir + "/j" + std::to_string(fileno_++);
            slots[sl].started = 0; slots[sl].ordinal = -1; slots[sl].known = 0;
            jobstart[sl] = now();
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0)
            {
                FILE* out = fopen(j.file.c_str(), "w");
                int e = open((j.file + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
                dup2(e, 2); dup2(e, 1);
                Ctx c; c.tier = tier; c.slot = &slots[sl];
                c.shard = j.shard; c.nshards = spaces()[j.sp].shards; c.resume = j.resume;
                int rc = 0;
                try { explore(spaces()[j.sp], c, out, all ? 1000000000L : maxfail); }
                catch (std::exception& ex) { fprintf(stderr, "harness error: %s\n", ex.what()); rc = 77; }
                fprintf(out, "S\t%ld\t%ld\t%ld\t%ld\n", c.ordinal + 1, c.executed, c.calls, c.nontrivial);
                for (auto& s : c.samples) fprintf(out, "X\t%s\n", s.c_str());
                fprintf(out, "O"); for (uint64_t h : c.outcomes) fprintf(out, " %lx", (unsigned long) h); fprintf(out, "\n");
                fclose(out);
#ifdef MC_COV
                __gcov_dump();
#endif
                _exit(rc);
            }
            j.pid = p;
            running.push_back(j);
        }
        bool any = false;
        for (size_t i = 0; i < running.size(); )
        {
            Job j = running[i];
            int st = 0;
            pid_t r = waitpid(j.pid, &st, WNOHANG);
            if (r == 0)
            {
                double s = slots[j.slot].started;
                if (s > 0 && now() - s > limit) { killed[j.slot] = true; kill(j.pid, SIGKILL); }
                i++; continue;
            }
            any = true;
            Stat& S = stats[j.sp];
            S.secs += now() - jobstart[j.slot];
            bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            {
                std::ifstream in(j.file); std::string line;
                while (std::getline(in, line))
                {
                    std::vector<std::string> f; std::stringstream ss(line); std::string t;
                    if (line[0] == 'O') { std::string w; ss >> w; while (ss >> w) outc[j.sp].insert(strtoull(w.c_str(), 0, 16)); continue; }
                    while (std::getline(ss, t, '\t')) f.push_back(t);
                    if (f[0] == "F" && f.size() >= 6)
                    {
                        FailRec R; R.space = spaces()[j.sp].name; R.seq = f[1]; R.ordinal = atol(f[2].c_str()); R.known = atoi(f[3].c_str());
                        R.desc = f[4]; R.msg = f[5]; R.kind = "mismatch"; R.shard = j.shard; R.nshards = spaces()[j.sp].shards;
                        fails.push_back(R); if (!R.known) nfail[j.sp]++;
                    }
                    else if (f[0] == "S") { S.leaves = std::max(S.leaves, atol(f[1].c_str())); S.executed += atol(f[2].c_str()); S.calls += atol(f[3].c_str()); S.nontriv += atol(f[4].c_str()); S.done++; }
                    else if (f[0] == "X" && f.size() > 1 && S.samples.size() < 3) S.samples.push_back(f[1]);
                }
            }
            if (!clean)
            {
                std::string err; { std::ifstream in(j.file + ".err"); std::stringstream b; b << in.rdbuf(); err = b.str(); }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "%s: %s\n", spaces()[j.sp].name.c_str(), err.c_str()); return 2; }
                if (slots[j.slot].ordinal < 0)
                { fprintf(stderr, "harness error: worker of %s died outside a case (status %x): %s\n", spaces()[j.sp].name.c_str(), st, err.c_str()); return 2; }
                FailRec R; R.space = spaces()[j.sp].name; R.ordinal = slots[j.slot].ordinal; R.known = slots[j.slot].known;
                std::vector<int> q; for (int k = 0; k < slots[j.slot].nch; k++) q.push_back((int) slots[j.slot].ch[k]);
                R.seq = seqstr(q); R.shard = j.shard; R.nshards = spaces()[j.sp].shards;
                R.kind = killed[j.slot] ? "timeout" : "crash";
                char b[200]; snprintf(b, sizeof b, killed[j.slot] ? "no result within %.0f s" : "process died: %s %d", killed[j.slot] ? limit : 0.0, 0);
                if (!killed[j.slot])
                {
                    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    else snprintf(b, sizeof b, "process exited with status %d", WEXITSTATUS(st));
                }
                if (err.size() > 1200) err = err.substr(0, 1200);
                R.msg = oneline(std::string(b) + " " + err);
                fails.push_back(R);
                if (!R.known) nfail[j.sp]++;
                S.executed++;
                Job n = j; n.resume = R.ordinal + 1; n.pid = 0;
                queue.push_back(n);
            }
            unlink(j.file.c_str()); unlink((j.file + ".err").c_str());
            used[j.slot] = false;
            running.erase(running.begin() + i);
        }
        if (!any) usleep(3000);
    }
    rmdir(dir.c_str());

    FILE* o = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    fprintf(o, "{\"spaces\":[");
    bool first = true;
    for (int s : sel)
    {
        Stat& S = stats[s];
        fprintf(o, "%s\n {\"name\":\"%s\",\"leaves\":%ld,\"executed\":%ld,\"calls\":%ld,\"nontrivial\":%ld,\"outcomes\":%ld,\"complete\":%s,\"cpu_s\":%.2f,\"samples\":[",
                first ? "" : ",", spaces()[s].name.c_str(), S.leaves, S.executed, S.calls, S.nontriv, (long) outc[s].size(),
                (!S.cut && nfail[s] == 0) ? "true" : "false", S.secs);
        first = false;
        for (size_t k = 0; k < S.samples.size(); k++) fprintf(o, "%s\"%s\"", k ? "," : "", jesc(S.samples[k]).c_str());
        fprintf(o, "]}");
    }
    fprintf(o, "],\"failures\":[");
    for (size_t k = 0; k < fails.size(); k++)
    {
        FailRec& R = fails[k];
        fprintf(o, "%s\n {\"space\":\"%s\",\"seq\":\"%s\",\"ordinal\":%ld,\"shard\":%ld,\"nshards\":%ld,\"kind\":\"%s\",\"known\":\"%s\",\"desc\":\"%s\",\"msg\":\"%s\"}",
                k ? "," : "", R.space.c_str(), R.seq.c_str(), R.ordinal, R.shard, R.nshards, R.kind.c_str(),
                R.known ? known_ids()[R.known - 1].c_str() : "", jesc(R.desc).c_str(), jesc(R.msg).c_str());
    }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::harness_main(argc, argv); }
#endif
#endif
