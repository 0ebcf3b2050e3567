bool Engine::summarise(State&, Loop* l, std::shared_ptr<LoopSnap> sn)
{
    Log* outer = log;
    bool ot = trial;
    try
    {
        LoopSum ls(*this, l, sn);
        bool ok = ls.go();
        if (opt.verbose)
        {
            std::cerr << "loop summarised: " << shortName(sn->st.fr.back().fi->name) << " trial=" << trial << " imprecise=" << ls.imprecise << "\n";
        }
        return ok;
    }
    catch (LoopFail& f)
    {
        log = outer;
        trial = ot;
        if (opt.verbose)
        {
            std::cerr << "loop not summarised (" << f.why << "): " << shortName(sn->st.fr.back().fi->name) << "\n";
        }
        loopWhy[userFn(sn->st)] = f.why;
        return false;
    }
    catch (Unsupported& u)
    {
        log = outer;
        trial = ot;
        if (opt.verbose)
        {
            std::cerr << "loop not summarised (unsupported " << u.what << ")\n";
        }
        return false;
    }
    catch (...)
    {
        log = outer;
        trial = ot;
        throw;
    }
}
