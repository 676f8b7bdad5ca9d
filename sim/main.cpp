// Command line of the simulator. One executable per build variant of the program under test.
#include "gen.h"
#include "checks.h"
#include <stdio.h>
#include <stdlib.h>
#include <fstream>
#include <sstream>
#include <time.h>

static std::string json(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}
static bool write_file(const std::string &path, const std::string &data)
{
    std::ofstream f(path, std::ios::binary);
    f << data;
    f.close();
    return (bool)f;
}
static bool read_scenario(const char *path, Scenario *sc)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) { fprintf(stderr, "cannot read %s\n", path); return false; }
    std::stringstream ss;
    ss << f.rdbuf();
    std::string err;
    if (!scenario_from_text(ss.str(), sc, &err)) { fprintf(stderr, "%s: %s\n", path, err.c_str()); return false; }
    if (sc->variant != g_variant) { fprintf(stderr, "%s: needs variant %s\n", path, sc->variant.c_str()); return false; }
    return true;
}
static std::string shorten(const Scenario &sc)
{
    std::string r;
    for (auto &l : split_lines(scenario_to_text(sc)))
    {
        if (r.size() > 3000) { r += "..."; break; }
        r += head(l, 160) + "\n";
    }
    return r;
}

extern char **saved_argv;
int main(int argc, char **argv)
{
    saved_argv = argv;
    g_engine.start();
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "work" && argc == 8)
    {
        // work PROPERTY SEED FROM TO THOROUGH DIR: simulates indices of [FROM, TO) that belong to this variant
        std::string prop = argv[2];
        uint64_t seed = strtoull(argv[3], NULL, 10);
        long from = atol(argv[4]), to = atol(argv[5]);
        bool thorough = atoi(argv[6]) != 0;
        std::string dir = argv[7];
        long evals = 0, nontrivial = 0;
        std::map<std::string, long> discards;
        std::string sample, viol;
        std::string distinct;
        for (long i = from; i < to; i++)
        {
            uint64_t s = mix_seed(mix_seed(seed, hash_str(prop)), (uint64_t)i);
            if (variant_of(prop, s) != g_variant) continue;
            Scenario sc = generate(prop, s, thorough);
            Verdict v = evaluate(sc);
            evals++;
            if (!v.discard.empty()) { std::string d = v.discard; size_t p = d.find(':'); discards[d.substr(0, p)]++; }
            else if (v.nontrivial) { nontrivial++; distinct += strf("%s%llu", distinct.empty() ? "" : ",", (unsigned long long)(v.hash >> 1)); }
            if (sample.empty() && v.nontrivial && v.discard.empty()) sample = shorten(sc);
            if (!v.v.empty())
            {
                std::string path = dir + strf("/%s-%ld.raw", prop.c_str(), i);
                write_file(path, scenario_to_text(sc));
                viol = strf("{\"index\":%ld,\"seed\":%llu,\"cat\":%s,\"detail\":%s,\"hash\":\"%llu\",\"path\":%s,\"variant\":%s}", i, (unsigned long long)s, json(v.v[0].cat).c_str(), json(v.v[0].detail).c_str(),
                    (unsigned long long)v.hash, json(path).c_str(), json(g_variant).c_str());
                break;
            }
        }
        std::string o = strf("{\"evals\":%ld,\"nontrivial\":%ld,\"runs\":%llu,\"steps\":%llu,\"sim_ms\":%llu,\"log\":\"%llu\",", evals, nontrivial, (unsigned long long)g_engine.runs, (unsigned long long)g_engine.steps,
            (unsigned long long)g_engine.sim_ms, (unsigned long long)g_engine.log_hash);
        auto dump = [&](const char *name, auto &m) { o += strf("\"%s\":{", name); bool first = true; for (auto &k : m) { o += (first ? "" : ",") + json(k.first) + ":" + strf("%ld", (long)k.second); first = false; } o += "},"; };
        o += strf("\"cpu_ms\":%llu,\"max_cpu_ms\":%llu,\"max_cpu_seed\":%llu,", (unsigned long long)g_engine.cpu_ms, (unsigned long long)g_engine.max_cpu_ms, (unsigned long long)g_engine.max_cpu_seed);
        dump("discards", discards);
        dump("fired", g_engine.fired);
        dump("fired_runs", g_engine.fired_runs);
        dump("probes", g_engine.probes);
        o += "\"distinct\":[" + distinct + "],";
        std::set<uint64_t> hs(g_engine.hashes.begin(), g_engine.hashes.end());
        o += "\"traces\":[";
        bool first = true;
        for (auto h : hs) { o += strf("%s%llu", first ? "" : ",", (unsigned long long)(h >> 1)); first = false; }
        o += "],";
        o += strf("\"work\":%llu,\"blocks\":[", (unsigned long long)g_engine.work);
        first = true;
        for (auto b : g_engine.covered()) { o += strf("%s%u", first ? "" : ",", b); first = false; }
        o += "],";
        o += "\"sample\":" + json(sample) + ",\"violation\":" + (viol.empty() ? "null" : viol) + "}";
        printf("%s\n", o.c_str());
        return 0;
    }
    if (mode == "replay" && argc == 3)
    {
        Scenario sc;
        if (!read_scenario(argv[2], &sc)) return 2;
        Verdict v = evaluate(sc);
        printf("property %s, seed %llu, build %s, trace %016llx\n", sc.prop.c_str(), (unsigned long long)sc.seed, g_variant, (unsigned long long)v.hash);
        if (!v.discard.empty()) printf("nothing decided: %s\n", v.discard.c_str());
        for (auto &x : v.v) printf("violated: %s: %s\n", x.cat.c_str(), x.detail.c_str());
        if (v.v.empty()) printf("property holds on this execution\n");
        return v.v.empty() ? 0 : 1;
    }
    if (mode == "minimise" && argc == 6)
    {
        // minimise IN OUT CATEGORY BUDGET
        Scenario sc;
        if (!read_scenario(argv[2], &sc)) return 2;
        Scenario m = minimise(sc, argv[4], atol(argv[5]));
        Verdict v = evaluate(m);
        std::string t = scenario_to_text(m);
        for (auto &x : v.v) t += "; " + x.cat + ": " + escape(x.detail) + "\n";
        if (!write_file(argv[3], t)) return 2;
        return v.v.empty() ? 3 : 0;
    }
    if (mode == "show" && argc == 3)
    {
        // One plain execution with its event log
        Scenario sc;
        if (!read_scenario(argv[2], &sc)) return 2;
        Run r = g_engine.run(sc);
        printf("status %d signal %d %s\n--- stdout\n%s--- stderr\n%s--- %llu allocations, %llu live (%llu lines), %lld open, %llu steps, %llu work, trace %016llx\n", r.code, r.sig, r.crash_text().c_str(), r.out.c_str(), r.err.c_str(),
            (unsigned long long)r.allocs, (unsigned long long)r.live, (unsigned long long)r.live_lines, (long long)r.open_streams, (unsigned long long)r.steps, (unsigned long long)r.work, (unsigned long long)r.hash);
        Model m(sc, &r);
        m.exec();
        printf("model: %s%s exit %d\n", m.supported ? "" : "unsupported: ", m.unsupported.c_str(), m.exit_code);
        if (!m.matched) printf("mismatch at command %ld: %s\n", m.mismatch_cmd, m.mismatch.c_str());
        for (auto &c : m.cmds) printf("%*s%s [%s]%s %s\n", 2 * c.depth, "", escape(head(c.text, 100)).c_str(), c.kind.c_str(), c.fails ? " FAILS" : "", c.why.c_str());
        return 0;
    }
    if (mode == "gen" && argc == 6)
    {
        // gen PROPERTY SEED INDEX THOROUGH
        uint64_t s = mix_seed(mix_seed(strtoull(argv[3], NULL, 10), hash_str(argv[2])), (uint64_t)atol(argv[4]));
        printf("%s", scenario_to_text(generate(argv[2], s, atoi(argv[5]) != 0)).c_str());
        return 0;
    }
    fprintf(stderr, "usage: %s work|replay|minimise|show|gen ...\n", argv[0]);
    return 2;
}
