// -*- c++ -*-
static string jstr(const string& s) {
    string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
}
int main(int argc, char** argv) {
    string bc, entry, out; double tl = 120; 
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--time") tl = atof(argv[++i]);
        else if (a == "--rlimit") g_rlimit = (unsigned)atol(argv[++i]);
        else if (a == "--trace") g_trace = true;
        else if (a == "--dump") g_smt_dump = argv[++i];
        else bc = a;
    }
    g_start = now(); g_deadline = g_start + tl;
    LLVMContext C; SMDiagnostic D;
    auto M = parseIRFile(bc, D, C);
    if (!M) { std::cerr << "cannot read " << bc << "\n"; return 2; }
    z3::context ctx; zc = &ctx;
    Function* f = M->getFunction(entry);
    if (!f || f->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 2; }
    string fatal;
    {
        Exec X(*M);
        try { X.run(f); }
        catch (Unsupported& u) { fatal = u.what; }
        catch (PathEnd&) { fatal = "path ended during set-up"; }
        catch (z3::exception& e) { fatal = e.msg(); }
    }
    if (fatal.size()) g_unsupported.push_back("fatal: " + fatal);
    std::ostringstream o;
    long n = 0, tr = 0, pr = 0, fl = 0, un = 0;
    for (auto& k : g_obs) { n += k.second.n; tr += k.second.trivial; pr += k.second.proved; fl += k.second.failed; un += k.second.unknown; }
    o << "{\"entry\":" << jstr(entry) << ",\n \"instances\":" << n << ",\"by_simplification\":" << tr << ",\"by_solver\":" << pr << ",\"failed\":" << fl << ",\"unknown\":" << un
      << ",\n \"paths\":" << g_paths << ",\"forks\":" << g_forks << ",\"steps\":" << g_steps << ",\"queries\":" << g_queries << ",\"cvc5\":" << g_cvc5 << ",\"solver_s\":" << g_solver_s << ",\"wall_s\":" << (now() - g_start) << ",\"throws\":" << g_throws;
    o << ",\n \"unsupported\":["; bool first = true;
    std::set<string> us(g_unsupported.begin(), g_unsupported.end());
    for (auto& u : us) { o << (first ? "" : ",") << jstr(u); first = false; }
    o << "],\n \"covers_hit\":["; first = true;
    for (auto& u : g_covers_hit) { o << (first ? "" : ",") << jstr(u); first = false; }
    o << "],\"covers_missed\":["; first = true;
    for (auto& u : g_covers_all) if (!g_covers_hit.count(u)) { o << (first ? "" : ",") << jstr(u); first = false; }
    o << "],\n \"contracts\":{"; first = true;
    for (auto& u : g_contract_calls) { o << (first ? "" : ",") << jstr(u.first) << ":" << u.second; first = false; }
    o << "},\n \"loops\":{"; first = true;
    for (auto& u : g_loop_used) { o << (first ? "" : ",") << jstr(u.first.substr(0, 160)) << ":" << u.second; first = false; }
    o << "},\n \"externals\":{"; first = true;
    for (auto& u : g_ext_used) { o << (first ? "" : ",") << jstr(u.first) << ":" << u.second; first = false; }
    o << "},\n \"stubs\":{"; first = true;
    for (auto& u : g_stub_used) { o << (first ? "" : ",") << jstr(u.first) << ":" << u.second; first = false; }
    o << "},\n \"functions\":["; first = true;
    { std::set<string> fx; for (auto& u : g_fn_exec) { string n = demangle(u.first->getName().str()); if (n.find("yask::") != string::npos) fx.insert(n); }
      for (auto& u : fx) { o << (first ? "" : ",") << jstr(u.substr(0, 200)); first = false; } }
    o << "],\n \"obligations\":["; first = true;
    for (auto& k : g_obs) {
        auto& b = k.second;
        o << (first ? "\n  " : ",\n  ") << "{\"kind\":" << jstr(b.kind) << ",\"label\":" << jstr(b.label) << ",\"where\":" << jstr(b.where) << ",\"n\":" << b.n << ",\"trivial\":" << b.trivial << ",\"proved\":" << b.proved << ",\"failed\":" << b.failed << ",\"unknown\":" << b.unknown;
        if (b.failed) {
            o << ",\"model\":" << jstr(b.model) << ",\"inputs\":["; bool f2 = true;
            for (auto& in : b.inputs) { o << (f2 ? "" : ",") << "[" << jstr(in.first) << "," << jstr(in.second) << "]"; f2 = false; }
            o << "]";
        }
        o << "}"; first = false;
    }
    o << "]}\n";
    if (out.size()) std::ofstream(out) << o.str(); else std::cout << o.str() << std::flush;
    _exit(0);
}
