#include "engine.h"
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
void Engine::emitSummary(const std::string& path, const std::string& h) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "{\"harness\":\"%s\",\"cfg\":{", h.c_str()); bool c = false; for (auto& k : cfg) { fprintf(f, "%s\"%s\":%lld", c ? "," : "", k.first.c_str(), (long long)k.second); c = true; }
    fprintf(f, "},\"paths\":%llu,\"pruned\":%llu,\"forks\":%llu,\"instructions\":%llu,\"exits\":%llu,\"wall_s\":%.3f,\"timed_out\":%s,\"unknown\":%llu,\n", (unsigned long long)done, (unsigned long long)killed, (unsigned long long)forks, (unsigned long long)insts, (unsigned long long)exits, nowS() - t0, timedOut ? "true" : "false", (unsigned long long)limitHits);
    fprintf(f, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"fp_queries\":%llu,\"time_s\":%.3f,\"max_s\":%.3f},\n", (unsigned long long)S.nq, (unsigned long long)S.nsat, (unsigned long long)S.nunsat, (unsigned long long)S.nunk, (unsigned long long)S.cacheHits, (unsigned long long)S.nfpq, S.tsolve, S.tmax);
    fprintf(f, "\"exprs\":%zu,\"vars\":%zu,\n\"reach\":{", X.all.size(), X.vars.size()); c = false; for (auto& r : reach) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(r.first).c_str(), (unsigned long long)r.second); c = true; }
    fprintf(f, "},\n\"asserts\":{"); c = false; for (auto& r : assertsChecked) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(r.first).c_str(), (unsigned long long)r.second); c = true; }
    fprintf(f, "},\n\"functions\":["); c = false;
    // every instruction is attributed to the source function it was written in (also when the compiler inlined it elsewhere)
    std::map<std::pair<std::string, std::string>, std::pair<size_t, size_t>> at; const char* rr = getenv("DSYM_REPO"); std::string root = rr ? rr : "/repo";
    for (auto& p : fns) { Fn* n = p.second; if (!n->entered) continue; for (auto& i : n->code) { std::string nm = n->name, file = n->file; if (i.src) if (auto& dl = i.src->getDebugLoc()) if (auto* sp = dl->getScope()->getSubprogram()) { nm = (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str(); file = (sp->getDirectory().empty() || sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str(); }
        if (file.find(root + "/") == std::string::npos) continue; auto& r = at[{nm, file}]; r.first++; r.second += i.cov; } }
    for (auto& a : at) { fprintf(f, "%s{\"name\":\"%s\",\"file\":\"%s\",\"ins\":%zu,\"covered\":%zu}", c ? "," : "", esc(a.first.first).c_str(), esc(a.first.second).c_str(), a.second.first, a.second.second); c = true; }
    fprintf(f, "],\n\"samples\":["); c = false; for (auto& x : samples) { fprintf(f, "%s%s", c ? ",\n" : "", x.c_str()); c = true; }
    fprintf(f, "],\n\"partials\":["); c = false; for (auto& x : partials) { fprintf(f, "%s%s", c ? ",\n" : "", x.c_str()); c = true; }
    fprintf(f, "],\n\"unsupported\":["); c = false; for (auto& x : unsup) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(x).c_str()); c = true; if (&x - &unsup[0] > 10) break; }
    fprintf(f, "],\n\"errors\":["); c = false;
    for (auto& kv : errors) for (auto& r : kv.second) {
        fprintf(f, "%s{\"kind\":\"%s\",\"label\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"notes\":[", c ? ",\n" : "", esc(r.kind).c_str(), esc(r.label).c_str(), esc(r.loc).c_str(), esc(r.stack).c_str()); c = true;
        bool d = false; for (auto& n : r.notes) { fprintf(f, "%s\"%s\"", d ? "," : "", esc(n).c_str()); d = true; }
        fprintf(f, "],\"inputs\":["); d = false; for (auto& i : r.inputs) { fprintf(f, "%s[\"%s\",%u,%llu]", d ? "," : "", esc(i.first).c_str(), i.second.first, (unsigned long long)i.second.second); d = true; } fprintf(f, "]}"); }
    fprintf(f, "]}\n"); fclose(f);
}
int main(int argc, char** argv) {
    std::string bc, h, out = "/dev/stdout"; Engine& e = *new Engine();
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "-h") h = nx(); else if (a == "-o") out = nx(); else if (a == "-t") e.maxTime = atof(nx().c_str()); else if (a == "--steps") e.maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "-v") e.verbose = true;
        else if (a == "--qt") { e.S.timeoutMs = atoi(nx().c_str()); e.S.reset(); } else if (a == "--real") e.S.realMode = true; else if (a == "--samples") e.nSamples = atoi(nx().c_str()); else if (a == "--no-uninit") e.uninitCheck = false; else if (a == "--paths") e.maxPaths = atoi(nx().c_str());
        else if (a == "-D") { std::string d = nx(); size_t q = d.find('='); e.cfg[d.substr(0, q)] = strtoll(d.c_str() + q + 1, 0, 0); } else bc = a; }
    try { e.load(bc); e.run(h); } catch (Unsupported& u) { fprintf(stderr, "dsym: unsupported: %s\n", u.msg.c_str()); e.unsup.push_back(u.msg); }
    e.emitSummary(out, h);
    fflush(stdout); _Exit(0);
}
