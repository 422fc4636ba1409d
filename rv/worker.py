import importlib, json, os, sys, faulthandler
faulthandler.enable()


def main():
    cfg = json.loads(sys.argv[1])
    import warnings
    warnings.simplefilter("ignore")
    import regreg
    if not os.path.abspath(regreg.__file__).startswith(os.path.abspath(cfg["scratch"]) + os.sep):
        sys.stderr.write("worker imported the wrong regreg: %s\n" % regreg.__file__)
        sys.exit(3)
    mod = importlib.import_module("rv.props." + cfg["prop"].lower())
    from rv import core
    if cfg.get("replay"):
        fam = [f for f in mod.FAMILIES if f.name == cfg["replay"]["family"]][0]
        case, status, key, msg, tb = core.run_case(cfg["prop"], fam, cfg["replay"]["index"], cfg["seed"], cfg["tier"])
        print(json.dumps(dict(status=status, key=key, msg=msg, desc=core.jsonable(case.desc), events=case.events), indent=1))
        if tb:
            print(tb)
        sys.exit({"violation": 1, "ok": 0, "skip": 0}.get(status, 2))
    core.shard_main(cfg["prop"], mod.FAMILIES, cfg["seed"], cfg["tier"], cfg["shard"], cfg["nshards"],
                    cfg["deadline"], cfg["out"], cfg.get("only"), cfg.get("scale", 1.))


main()
