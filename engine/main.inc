static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
        {
            r += "\\n";
        }
        else if (static_cast<unsigned char>(c) < 32)
        {
            r += ' ';
        }
        else
        {
            r += c;
        }
    }
    return r + "\"";
}

template <class C>
static std::string jlist(const C& c)
{
    std::string r = "[";
    bool first = true;
    for (auto& x : c)
    {
        r += (first ? "" : ",") + jstr(x);
        first = false;
    }
    return r + "]";
}

std::string Engine::json()
{
    std::ostringstream os;
    Log& l = mainLog;
    os << "{\"obligations\":{";
    bool first = true;
    for (auto& [k, v] : l.obl)
    {
        os << (first ? "" : ",") << jstr(k) << ":{\"vcs\":" << v.inst << ",\"proved\":" << v.proved << ",\"trivial\":" << v.trivial
           << ",\"failed\":" << v.failed << ",\"unknown\":" << v.unknown << "}";
        first = false;
    }
    os << "},\n\"failures\":[";
    first = true;
    for (auto& f : l.fails)
    {
        os << (first ? "" : ",\n") << "{\"obligation\":" << jstr(f.obl) << ",\"where\":" << jstr(f.loc) << ",\"detail\":" << jstr(f.detail)
           << ",\"abstracted\":" << (f.abstracted ? "true" : "false") << ",\"inputs\":" << jstr(f.inputs) << "}";
        first = false;
    }
    os << "],\n\"covers\":{";
    first = true;
    for (auto& [k, v] : l.covers)
    {
        os << (first ? "" : ",") << jstr(k) << ":" << v;
        first = false;
    }
    std::set<std::string> fnames;
    for (auto* f : executed)
    {
        std::string n = demangle(f->getName().str());
        fnames.insert(n.size() > 220 ? n.substr(0, 220) + "..." : n);
    }
    std::vector<std::string> why;
    for (auto& [k, v] : loopWhy)
    {
        why.push_back(k + ": " + v);
    }
    os << "},\n\"paths\":" << l.paths << ",\"queries\":" << sol.nQueries << ",\"sat\":" << sol.nSat << ",\"unsat\":" << sol.nUnsat
       << ",\"unknown\":" << sol.nUnknown << ",\"solver_s\":" << sol.time << ",\"wall_s\":" << now() - t0 << ",\"steps\":" << nSteps
       << ",\"timeout\":" << (timedOut ? "true" : "false") << ",\n\"bounded\":" << jlist(l.bounded) << ",\"unsupported\":" << jlist(l.unsupported)
       << ",\"undecided\":" << jlist(l.unknownWhere) << ",\"loops_summarised\":" << jlist(loopsSummarised)
       << ",\"loops_unrolled\":" << jlist(loopsFailed) << ",\"loop_notes\":" << jlist(why) << ",\"externals\":" << jlist(externals) << ",\n\"functions\":" << jlist(coveredFns)
       << ",\"functions_total\":" << fnames.size() << "}\n";
    return os.str();
}

void Engine::runEntry(Function* f)
{
    State s;
    s.nextId = firstDyn;
    // static initialisers first
    std::vector<Function*> inits;
    if (auto* gc = M.getNamedGlobal("llvm.global_ctors"))
    {
        if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        {
            std::vector<std::pair<u64, Function*>> v;
            for (auto& op : arr->operands())
            {
                auto* st = cast<ConstantStruct>(op);
                if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
                {
                    v.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn);
                }
            }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v)
            {
                inits.push_back(p.second);
            }
        }
    }
    for (auto* fn : inits)
    {
        // run each initialiser to completion on the single concrete path
        enter(s, fn, {}, nullptr);
        State out;
        bool got = false;
        Frame dummy;
        try
        {
            while (true)
            {
                if (s.fr.size() == 1 && isa<ReturnInst>(&*s.fr.back().ip))
                {
                    popFrame(s);
                    got = true;
                    break;
                }
                step(s);
            }
        }
        catch (Unsupported& u)
        {
            log->unsupported.insert("static initialiser: " + u.what);
        }
        catch (PathEnd& p)
        {
            log->unsupported.insert("static initialiser: " + p.why);
        }
        if (!got)
        {
            while (!s.fr.empty())
            {
                popFrame(s);
            }
        }
    }
    s.live = 0;
    enter(s, f, {}, nullptr);
    std::vector<State> init;
    init.push_back(std::move(s));
    try
    {
        explore(std::move(init), nullptr, opt.maxPaths);
    }
    catch (PathEnd& e)
    {
        // time out
    }
}

static int mainEntry(int argc, char** argv)
{
    std::string bc, entry, out;
    Options opt;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nxt = [&]
        {
            return std::string(argv[++i]);
        };
        if (a == "--entry")
        {
            entry = nxt();
        }
        else if (a == "--out")
        {
            out = nxt();
        }
        else if (a == "--unroll")
        {
            opt.unroll = u32(std::stoul(nxt()));
        }
        else if (a == "--time")
        {
            opt.timeLimit = std::stod(nxt());
        }
        else if (a == "--stub")
        {
            std::string s = nxt();
            auto p = s.find("=>");
            opt.stubs.emplace_back(s.substr(0, p), s.substr(p + 2));
        }
        else if (a == "--merge")
        {
            opt.merge = true;
        }
        else if (a == "--no-summary")
        {
            opt.summarise = false;
        }
        else if (a == "--max-paths")
        {
            opt.maxPaths = std::stoull(nxt());
        }
        else if (a == "-v")
        {
            opt.verbose = true;
        }
        else
        {
            bc = a;
        }
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(bc, err, ctx);
    if (!m)
    {
        err.print("vfe", errs());
        return 2;
    }
    Function* f = m->getFunction(entry);
    if (!f || f->isDeclaration())
    {
        std::cerr << "no entry " << entry << "\n";
        return 2;
    }
    Engine e(*m, opt);
    for (auto& [fn, st] : opt.stubs)
    {
        Function* to = m->getFunction(st);
        bool found = false;
        for (auto& g : *m)
        {
            if (to && demangle(g.getName().str()) == fn)
            {
                e.stubs[g.getName().str()] = to;
                found = true;
            }
        }
        if (!found)
        {
            std::cerr << "contract for " << fn << " not used: no such function\n";
        }
    }
    e.runEntry(f);
    std::string j = e.json();
    if (out.empty())
    {
        std::cout << j;
    }
    else
    {
        std::ofstream(out) << j;
    }
    std::cout.flush();
    _exit(0);
}
