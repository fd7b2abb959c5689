import os, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    import core
    try:
        import probayes
    except Exception as e:   # nothing can be decided
        print('probayes does not import: %r' % (e,))
        return 2
    if os.path.dirname(os.path.realpath(probayes.__file__)) != os.path.realpath(os.path.join(REPO, 'probayes')):
        print('probayes was imported from %s' % probayes.__file__)
        return 2
    import props
    try:
        jobs = props.CHECKS[prop][tier]() if tier in props.CHECKS[prop] else props.CHECKS[prop]['quick']()
        total = core.Outcome()
        stats = {'states': 0, 'transitions': 0}
        per = []
        for job in jobs:
            t = time.time()
            recs, s = core.run_tlc(job)
            t1 = time.time()
            out = job.replayer.run(recs) if hasattr(job.replayer, 'run') else core.replay_tree(recs, job.replayer)
            del recs
            per.append({'job': job.name, 'states': s['states'], 'transitions': s['transitions'],
                        'steps_decided': out.traces, 'tlc_s': round(t1 - t, 1), 'replay_s': round(time.time() - t1, 1)})
            for k in stats:
                stats[k] += s[k]
            out.samples = out.samples[:2]
            total.merge(out)
        if not total.traces and not total.violations:
            raise core.HarnessError('nothing was decided')
        return core.report(prop, tier, t0, stats, total, {'jobs': per}, assumptions=props.assumptions(prop))
    except core.HarnessError as e:
        print('harness error: %s' % e)
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
