static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string jpairs(const std::vector<std::pair<std::string, std::string>>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::string("[") + jstr(v[i].first) + "," + jstr(v[i].second) + "]"; return r + "]"; }
struct Job { std::string name, entry; std::vector<s64> params; u64 maxPaths; double maxTime; u64 maxSteps; };

static void setupGlobals(State& s) {
	for (auto& f : *M) { Func* F = new Func; F->f = &f; F->name = f.getName().str(); u32 id = s.mem.alloc(16, K_FUNC, strdup(F->name.c_str())); F->addr = addrOf(id); gaddr[&f] = F->addr; funcs[&f] = F; while (funcByObj.size() <= id) funcByObj.push_back(nullptr); funcByObj[id] = F; auto it = builtinIds.find(F->name); if (it != builtinIds.end()) F->builtin = it->second;
		if (auto* sp = f.getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; F->file = fn; F->fromRepo = fn.compare(0, repoPrefix.size(), repoPrefix) == 0; } }
	for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64; if (!g.hasInitializer() && sz < 64) sz = 64; u32 id = s.mem.alloc((u32)sz, g.hasInitializer() ? K_GLOBAL : K_EXT, strdup(g.getName().str().c_str())); MemObj* o = s.mem.getW(id); memset(o->data, 0, sz); gaddr[&g] = addrOf(id); if (!g.hasInitializer() && !g.getName().starts_with("llvm.")) notes.insert("external data " + demangle(g.getName().str())); }
	for (auto& g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) { u32 id = gaddr[&g] >> 32; MemObj* o = s.mem.getW(id); try { writeInit(g.getInitializer(), o->data); } catch (Unsupported& u) { notes.insert("initializer of " + g.getName().str() + ": " + u.why); } o->ro = g.isConstant(); }
}
static bool runToEnd(State* s) { // explores everything reachable from s
	work.push_back(s); bool ok = true; u64 rngState = vseed * 6364136223846793005ull + 1442695040888963407ull;
	while (!work.empty()) {
		State* st = work.back(); work.pop_back();
		try { runState(*st); }
		catch (PathEnd& p) {
			if (p.kind == 0) { nPaths++; if ((nPaths < 300 || nPaths % 256 == 0) && S->st.pathQueries < 2000 && S->pathSat(st->pc) == 0) { nIncomplete++; incompleteWhy["path condition refuted by Z3"]++; } for (auto c : st->covers) coverCount[c]++;
				rngState = rngState * 6364136223846793005ull + 1442695040888963407ull; u64 rr = rngState >> 33;
				if (maxSamples) { if (samples.size() < maxSamples || rr % nPaths < maxSamples) { Sample sm; fillInputs(*st, st->pc.model, sm.inputs); fillOuts(*st, st->pc.model, sm.outs); if (samples.size() < maxSamples) samples.push_back(sm); else samples[rr % maxSamples] = sm; } } }
			else if (p.kind == 1) nInfeasible++;
			else if (p.kind == 2) { nIncomplete++; incompleteWhy[p.msg]++; rngState = rngState * 6364136223846793005ull + 1442695040888963407ull; if (maxSamples && (partials.size() < 12 || (rngState >> 33) % nIncomplete < 12)) { Sample sm; fillInputs(*st, st->pc.model, sm.inputs); if (partials.size() < 12) partials.push_back(sm); else partials[(rngState >> 33) % 12] = sm; } if (getenv("SX_WHERE")) { fprintf(stderr, "incomplete: %s\n", p.msg.c_str()); for (auto& l : backtrace(*st)) fprintf(stderr, "   %s\n", l.c_str()); } }
			else nPaths++;
		}
		delete st;
		if (viols.size() >= maxViol) { for (auto* w : work) delete w; work.clear(); break; }
		if (nPaths + nInfeasible + nIncomplete >= maxPaths && !work.empty()) { nIncomplete++; incompleteWhy["path limit"]++; for (auto* w : work) delete w; work.clear(); break; }
		if (nowS() > jobDeadline && !work.empty()) { nIncomplete++; incompleteWhy["time limit"]++; for (auto* w : work) delete w; work.clear(); break; }
	}
	return ok;
}
static void writeResult(const std::string& path, const Job& j, double wall) {
	std::ofstream o(path + ".tmp");
	o << "{\"job\":" << jstr(j.name) << ",\"entry\":" << jstr(j.entry) << ",\"params\":["; for (size_t i = 0; i < j.params.size(); ++i) o << (i ? "," : "") << j.params[i]; o << "]";
	o << ",\"paths\":" << nPaths << ",\"infeasible\":" << nInfeasible << ",\"incomplete\":" << nIncomplete << ",\"steps\":" << nSteps << ",\"forks\":" << nForks << ",\"asserts\":" << nAsserts;
	auto& t = S->st; o << ",\"queries\":" << t.queries << ",\"sat\":" << t.qSat << ",\"unsat\":" << t.qUnsat << ",\"unknown\":" << t.qUnknown << ",\"cacheHits\":" << t.cacheHits << ",\"domainDecisions\":" << t.domainDecisions << ",\"assertQueries\":" << t.assertQueries << ",\"assertFolded\":" << t.assertFolded << ",\"assertDischarged\":" << t.assertDischarged << ",\"pathQueries\":" << t.pathQueries << ",\"solverS\":" << t.solverS << ",\"wall\":" << wall << ",\"vars\":" << P.vars.size();
	o << ",\"why\":{"; bool first = true; for (auto& x : incompleteWhy) { o << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; } o << "}";
	o << ",\"covers\":{"; first = true; for (auto& x : coverCount) { o << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; } o << "}";
	o << ",\"notes\":["; first = true; for (auto& x : notes) { o << (first ? "" : ",") << jstr(x); first = false; } o << "]";
	o << ",\"funcs\":{"; first = true; for (auto& x : funcs) if (x.second->calls && x.second->fromRepo) { o << (first ? "" : ",") << jstr(demangle(x.second->name)) << ":" << x.second->calls; first = false; } o << "}";
	o << ",\"violations\":["; for (size_t i = 0; i < viols.size(); ++i) { auto& v = viols[i]; o << (i ? "," : "") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"inputs\":" << jpairs(v.inputs) << ",\"outs\":" << jpairs(v.outs) << ",\"stack\":["; for (size_t k = 0; k < v.stack.size(); ++k) o << (k ? "," : "") << jstr(v.stack[k]); o << "]}"; } o << "]";
	o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "{\"inputs\":" << jpairs(samples[i].inputs) << ",\"outs\":" << jpairs(samples[i].outs) << "}"; o << "],\"partials\":["; for (size_t i = 0; i < partials.size(); ++i) o << (i ? "," : "") << "{\"inputs\":" << jpairs(partials[i].inputs) << "}"; o << "]}\n";
	o.close(); rename((path + ".tmp").c_str(), path.c_str());
}
int main(int argc, char** argv) {
	std::string bc, jobsFile, outDir = "."; int par = 8; u64 memMB = 6000;
	for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); }; if (a == "--bc") bc = nx(); else if (a == "--jobs") jobsFile = nx(); else if (a == "--out") outDir = nx(); else if (a == "--par") par = stoi(nx()); else if (a == "--repo") repoPrefix = nx(); else if (a == "--seed") vseed = stoull(nx()); else if (a == "--samples") maxSamples = stoi(nx()); else if (a == "--maxviol") maxViol = stoi(nx()); else if (a == "--mem") memMB = stoull(nx()); else if (a == "--trace") dumpTrace = true; }
	LC = new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(bc, err, *LC); if (!mod) { err.print("engine", errs()); return 2; } M = mod.release(); DL = &M->getDataLayout();
	S = new Solver(P);
	for (size_t i = 0; i < sizeof builtins / sizeof *builtins; ++i) builtinIds[builtins[i].name] = (int)i;
	State* base = new State; setupGlobals(*base);
	// global constructors, by priority
	if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
		std::vector<std::pair<u64, Function*>> cs; for (auto& op : ca->operands()) { auto* cs1 = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs1->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cs1->getOperand(0))->getZExtValue(), f}); }
		std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
		for (auto& c : cs) { pushFrame(*base, funcs[c.second], {}, -1, 0); try { runState(*base); } catch (PathEnd& p) { if (p.kind != 0) { fprintf(stderr, "engine: global constructor failed: %s\n", p.msg.c_str()); for (auto& v : viols) { fprintf(stderr, " %s %s\n", v.kind.c_str(), v.msg.c_str()); for (auto& l : v.stack) fprintf(stderr, "   %s\n", l.c_str()); } for (auto& n : notes) fprintf(stderr, "  note %s\n", n.c_str()); return 2; } } base->steps = 0; }
	}
	for (auto& f : funcs) f.second->calls = 0;
	std::vector<Job> jobs; { std::ifstream in(jobsFile); std::string l; while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream is(l); Job j; j.maxPaths = ~0ull; j.maxTime = 60; j.maxSteps = 0; std::string ps; is >> j.name >> j.entry >> ps >> j.maxPaths >> j.maxTime >> j.maxSteps; std::istringstream pp(ps); std::string t; while (std::getline(pp, t, ',')) if (!t.empty() && t != "-") j.params.push_back(std::stoll(t)); jobs.push_back(j); } }
	std::map<pid_t, size_t> kids; size_t next = 0; int rc = 0;
	while (next < jobs.size() || !kids.empty()) {
		while (next < jobs.size() && (int)kids.size() < par) {
			Job& j = jobs[next]; pid_t pid = par == 1 && jobs.size() == 1 && getenv("SX_NOFORK") ? 0 : fork();
			if (pid == 0) {
				struct rlimit rl; rl.rlim_cur = rl.rlim_max = memMB << 20; setrlimit(RLIMIT_AS, &rl);
				double t0 = nowS(); params = j.params; maxPaths = j.maxPaths; if (j.maxSteps) maxStepsPerPath = j.maxSteps; jobDeadline = t0 + j.maxTime; entryName = j.entry.c_str();
				Function* f = M->getFunction(j.entry); if (!f || f->isDeclaration()) { fprintf(stderr, "engine: no entry %s\n", j.entry.c_str()); _exit(3); }
				pushFrame(*base, funcs[f], {}, -1, 0);
				try { runToEnd(base); } catch (std::bad_alloc&) { nIncomplete++; incompleteWhy["memory limit"]++; }
				writeResult(outDir + "/" + j.name + ".json", j, nowS() - t0); _exit(0);
			}
			kids[pid] = next++;
		}
		int stt; pid_t p = waitpid(-1, &stt, 0); if (p < 0) break; auto it = kids.find(p); if (it == kids.end()) continue;
		if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { fprintf(stderr, "engine: job %s died (status %d)\n", jobs[it->second].name.c_str(), stt); rc = 1; }
		kids.erase(it);
	}
	return rc;
}
