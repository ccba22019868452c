// Driver of the engine: see pbt.h.
//   exe --seed S --tier quick|thorough --shard i/n --scale f --out result.json --replay-out file
//   exe --replay file        re-run one stored case (exit 1 if it fails)
//   exe --probes             print the recorded findings which still reproduce
#include "pbt.h"
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern const char *pbt_property;
extern const char *pbt_rule;

using namespace pbt;
namespace
{
    Shared *sh;
    const int case_cpu_limit_s = 60, case_wall_limit_s = 200;

    void arm_timer(int sec)
    {
        itimerval t{}; t.it_value.tv_sec = sec;
        setitimer(ITIMER_PROF, &t, nullptr);
        // a case that waits for ever uses no CPU: bound the elapsed time too, far above what a loaded machine needs
        itimerval w{}; w.it_value.tv_sec = sec ? case_wall_limit_s : 0;
        setitimer(ITIMER_REAL, &w, nullptr);
    }
    void silence()
    {
        if (getenv("PBT_VERBOSE")) return;
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2); close(fd);
    }
    void limit_memory()
    {
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && __has_feature(address_sanitizer))
        rlimit r{8ull << 30, 8ull << 30};
        setrlimit(RLIMIT_AS, &r);
#endif
        rlimit c{0, 0};
        setrlimit(RLIMIT_CORE, &c);
    }
    enum Outcome : uint64_t { RUNNING = 0, OK = 1, FAILED = 2, DISCARDED = 3 };
    void put(char *dst, size_t n, const std::string &s)
    {
        size_t k = std::min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0;
    }
    Outcome run_case(const Arm &a, Src &s)
    {
        sh->status = RUNNING; sh->msg[0] = 0; sh->desc[0] = 0;
        s.desc_.precision(17);
        Outcome o = OK;
        arm_timer(case_cpu_limit_s);
        try { a.fn(s); }
        catch (const Discard &) { o = DISCARDED; }
        catch (const Failure &f) { o = FAILED; put(sh->msg, sizeof sh->msg, f.msg); }
        catch (const std::exception &e) { o = FAILED; put(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what()); }
        catch (...) { o = FAILED; put(sh->msg, sizeof sh->msg, "unexpected exception"); }
        arm_timer(0);
        put(sh->desc, sizeof sh->desc, s.desc_.str());
        sh->status = o;
        return o;
    }
    std::string describe_death(int st)
    {
        if (WIFSIGNALED(st))
        {
            if (WTERMSIG(st) == SIGPROF) return "case exceeded its CPU limit (no termination)";
            if (WTERMSIG(st) == SIGALRM) return "case waited beyond its time limit (no termination)";
            return std::string("killed by signal ") + strsignal(WTERMSIG(st));
        }
        return "worker exited with code " + std::to_string(WEXITSTATUS(st));
    }
    // run one choice sequence in a child; true if it fails.  Used length/msg/desc stay in sh.
    bool fails(const Arm &a, const std::vector<uint64_t> &seq, std::string &why, bool &hang)
    {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0)
        {
            silence(); limit_memory();
            Src s(sh); s.replay = &seq;
            auto o = run_case(a, s);
            _exit(o == FAILED ? 10 : 0);
        }
        int st = 0; waitpid(p, &st, 0);
        hang = false;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { why = sh->msg; return true; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false; // out of memory or killed from outside: no verdict
        hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM);
        why = describe_death(st);
        return true;
    }
    std::vector<uint64_t> used() { return {sh->choice, sh->choice + sh->len}; }

    bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
    {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }
    void shrink(const Arm &a, std::vector<uint64_t> &best, std::string &why)
    {
        auto t0 = std::chrono::steady_clock::now();
        auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < 45; };
        bool hang = false; int tries = 0;
        auto attempt = [&](std::vector<uint64_t> c)
        {
            if (!left() || tries > 6000) return false;
            tries++;
            std::string w; bool h;
            if (!fails(a, c, w, h) || h) return false;
            auto u = used();
            if (u.size() <= c.size() && simpler(u, c)) c = u;
            if (simpler(c, best)) { best = c; why = w; return true; }
            return false;
        };
        (void)hang;
        for (bool progress = true; progress && left();)
        {
            progress = false;
            for (size_t k : {64, 32, 16, 8, 4, 2, 1})
                for (size_t i = best.size() < k ? 0 : best.size() - k; left();)
                {
                    if (i + k <= best.size())
                    {
                        auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
                        if (attempt(c)) { progress = true; i = std::min(i, best.size() < k ? 0 : best.size() - k); continue; }
                    }
                    if (i == 0) break;
                    i--;
                }
            for (size_t i = 0; i < best.size() && left(); i++)
            {
                if (best[i] == 0) continue;
                auto c = best; c[i] = 0;
                if (attempt(c)) { progress = true; continue; }
                uint64_t lo = 0, hi = best[i];
                while (hi - lo > 1 && left())
                {
                    uint64_t m = lo + (hi - lo) / 2; c = best; if (i >= c.size()) break; c[i] = m;
                    if (attempt(c)) { hi = m; progress = true; } else lo = m;
                    if (i >= best.size()) break;
                }
            }
        }
    }
    std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
            else o += ch;
        }
        return o + "\"";
    }
    const Arm *find_arm(const std::string &n)
    {
        for (auto &a : arms()) if (a.name == n) return &a;
        return nullptr;
    }
    int replay(const std::string &file)
    {
        std::ifstream f(file); std::string line, name; std::vector<uint64_t> seq;
        while (std::getline(f, line))
        {
            if (line.rfind("arm ", 0) == 0) name = line.substr(4);
            else if (line.rfind("choices", 0) == 0) { std::istringstream is(line.substr(7)); uint64_t v; while (is >> v) seq.push_back(v); }
        }
        auto a = find_arm(name);
        if (!a) { std::cout << "no arm " << name << "\n"; return 2; }
        std::string why; bool h;
        bool bad = fails(*a, seq, why, h);
        std::cout << (bad ? "FAILS: " + why : std::string("passes")) << "\ncase: " << sh->desc << "\n";
        return bad ? 1 : 0;
    }
}

int main(int argc, char **argv)
{
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t seed = 1; std::string tier = "quick", out, rout, only; int shard = 0, nshards = 1; double scale = 1, maxs = 1e9;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = std::stoull(nx());
        else if (a == "--tier") tier = nx();
        else if (a == "--out") out = nx();
        else if (a == "--replay-out") rout = nx();
        else if (a == "--scale") scale = std::stod(nx());
        else if (a == "--max-seconds") maxs = std::stod(nx());
        else if (a == "--arm") only = nx();
        else if (a == "--shard") { auto s = nx(); sscanf(s.c_str(), "%d/%d", &shard, &nshards); }
        else if (a == "--replay") return replay(nx());
        else if (a == "--list") { for (auto &x : arms()) std::cout << x.name << " " << x.quick << " " << x.thorough << "\n"; return 0; }
        else if (a == "--probes")
        {
            for (auto &p : probes())
            {
                fflush(nullptr);
                pid_t c = fork();
                if (c == 0) { limit_memory(); arm_timer(60); std::string w; bool still = false;
                    try { still = p.fn(w); } catch (std::exception &e) { still = true; w += e.what(); }
                    put(sh->msg, sizeof sh->msg, w); _exit(still ? 10 : 0); }
                int st = 0; waitpid(c, &st, 0);
                bool still = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                std::cout << "PROBE " << p.name << " " << (still ? "present" : "absent") << " "
                          << (WIFEXITED(st) ? std::string(sh->msg) : describe_death(st)) << "\n";
            }
            return 0;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    std::string stats = rout + ".stats";
    pid_t p = fork();
    if (p == 0)
    {
        silence(); limit_memory();
        std::map<std::string, uint64_t> labels; std::map<std::string, std::array<uint64_t, 3>> per;
        std::unordered_set<uint64_t> distinct; std::vector<std::pair<std::string, std::string>> samples;
        uint64_t ev = 0, disc = 0; bool truncated = false; std::map<std::string, int> nsample;
        int rc = 0;
        for (size_t ia = 0; ia < arms().size() && !rc; ia++)
        {
            auto &a = arms()[ia];
            if (!only.empty() && a.name != only) continue;
            uint64_t n = uint64_t(std::ceil((tier == "quick" ? a.quick : a.thorough) * scale));
            uint64_t h = 1469598103934665603ull; for (char c : a.name) h = (h ^ (unsigned char)c) * 1099511628211ull;
            for (uint64_t k = shard; k < n; k += nshards)
            {
                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxs) { truncated = true; break; }
                sh->arm = ia; sh->index = k;
                Src s(sh); s.rng = Rng(mix64(seed) ^ mix64(h) ^ mix64(k * 2654435761ull + 17));
                auto o = run_case(a, s);
                ev++; per[a.name][0]++;
                if (o == DISCARDED) { disc++; per[a.name][2]++; continue; }
                if (o == FAILED) { rc = 10; break; }
                for (auto &l : s.labels_) labels[a.name + ": " + l]++;
                if (s.nontrivial_)
                {
                    uint64_t hh = h; for (uint64_t i = 0; i < sh->len; i++) hh = mix64(hh ^ sh->choice[i]);
                    if (distinct.insert(hh).second) per[a.name][1]++;
                    if (nsample[a.name] < 1 && s.desc_.str().size() > 0) { samples.push_back({a.name, s.desc_.str().substr(0, 600)}); nsample[a.name]++; }
                }
            }
        }
        std::ofstream f(stats);
        f << "{\"evaluations\":" << ev << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << distinct.size()
          << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"arms\":{";
        const char *sep = "";
        for (auto &[k, v] : per) { f << sep << jstr(k) << ":{\"cases\":" << v[0] << ",\"nontrivial\":" << v[1] << ",\"discarded\":" << v[2] << "}"; sep = ","; }
        f << "},\"labels\":{"; sep = "";
        for (auto &[k, v] : labels) { f << sep << jstr(k) << ":" << v; sep = ","; }
        f << "},\"samples\":["; sep = "";
        for (auto &[k, v] : samples) { f << sep << jstr(k + ": " + v); sep = ","; }
        f << "],\"rule\":" << jstr(pbt_rule) << "}";
        f.close();
        _exit(rc);
    }
    int st = 0; waitpid(p, &st, 0);
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    std::string verdict = "pass", why;
    if (!ok)
    {
        const Arm a = arms()[sh->arm]; uint64_t index = sh->index;
        auto seq = used();
        bool hang = false;
        bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        std::string first = WIFEXITED(st) && WEXITSTATUS(st) == 10 ? std::string(sh->msg) : describe_death(st);
        bool again = false;
        for (int r = 0; r < 20 && !killed && !again; r++) again = fails(a, seq, why, hang);
        if (!again) { verdict = "inconclusive"; why = "not reproduced: " + first; }
        else
        {
            if (!hang) shrink(a, seq, why);
            int n = 0; bool h = false;
            const int need = hang ? 2 : 3; // a deterministic failure fails `need` times in a row; a racy one gets more replays
            for (int r = 0; r < 60 && n < need; r++) { std::string w; if (fails(a, seq, w, h)) { n++; why = w; } }
            verdict = n >= need ? "fail" : "inconclusive";
            std::ofstream f(rout);
            f << "property " << pbt_property << "\narm " << a.name << "\nseed " << seed << " index " << index << "\n";
            std::string m = why; std::replace(m.begin(), m.end(), '\n', ' ');
            f << "reason " << m << "\n";
            std::string d = sh->desc; std::replace(d.begin(), d.end(), '\n', ' ');
            f << "case " << d << "\nchoices";
            for (auto v : seq) f << " " << v;
            f << "\n";
        }
    }
    std::ofstream f(out);
    f << "{\"verdict\":" << jstr(verdict) << ",\"why\":" << jstr(why);
    std::ifstream sf(stats); std::string body((std::istreambuf_iterator<char>(sf)), {});
    f << ",\"stats\":" << (body.empty() ? "null" : body) << "}\n";
    unlink(stats.c_str());
    return verdict == "pass" ? 0 : 1;
}
