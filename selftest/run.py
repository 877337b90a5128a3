"""python3 run.py refactors|mutants [names...]: apply each edit to a scratch copy and run /tmp/all.py-like analysis"""
import subprocess, sys, tempfile, shutil, os
import common
kind = sys.argv[1]
E = __import__(kind).R
names = [n for n in E if not sys.argv[2:] or any(n.startswith(p) for p in sys.argv[2:])]
for n in names:
    d = tempfile.mkdtemp(prefix="avn_")
    try:
        common.copy(d)
        ed = E[n]
        if isinstance(ed, tuple):
            prop, ed = ed
            print(f"## {n} [{prop}]", flush=True)
        else:
            print(f"## {n}", flush=True)
        try:
            common.apply(d, ed)
        except KeyError as e:
            print("   EDIT FAILED", e)
            continue
        p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "all.py"), d, os.environ.get("SEL", "fast"), os.environ.get("NDET", "1")], capture_output=True, text=True, timeout=420)
        print(p.stdout[:int(os.environ.get("NCH", "3000"))], p.stderr[-600:], flush=True)
    except subprocess.TimeoutExpired:
        print('   TIMEOUT', flush=True)
        os.system('pkill -f "all.py '+d+'"')
    finally:
        shutil.rmtree(d)
