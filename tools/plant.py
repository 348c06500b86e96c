"""Makes a planted bug of a spec file and confirms it (by hand only, no check
uses it): python3 tools/plant.py SPEC.py [--check] [--keep]

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Python
text, with the helpers of tools/demolib.py before it)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(c, **k):
	return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
	sh(["git", "-C", REPO, "checkout", "--", "."], check=True)


def edit(path, old, new):
	with open(path, "rb") as f:
		raw = f.read()
	crlf = b"\r\n" in raw
	o, n = old.encode(), new.encode()
	if crlf:
		o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
	assert raw.count(o) == 1, (path, old, raw.count(o))
	with open(path, "wb") as f:
		f.write(raw.replace(o, n))


def demo(d):
	return sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=300)


def main():
	spec = {}
	exec(open(sys.argv[1]).read(), spec)
	d = os.path.join(HERE, "seeded", spec["ID"])
	assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout, "repo not clean"
	os.makedirs(d, exist_ok=True)
	with open(os.path.join(d, "demo.sh"), "w") as f:
		f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/usenet:$PWD/bin"\n'
		        'exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n')
	with open(os.path.join(d, "demo.py"), "w") as f:
		f.write(open(os.path.join(HERE, "tools", "demolib.py")).read() + "\n" + spec["DEMO"].lstrip())
	with open(os.path.join(d, "meta.json"), "w") as f:
		json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, f, indent=1)
		f.write("\n")
	ok = True
	r = demo(d)
	print("demo clean:", r.returncode)
	if r.returncode:
		print(r.stdout.decode()[-1500:])
		ok = False
	try:
		for e in spec["EDITS"]:
			edit(os.path.join(REPO, e[0]), e[1], e[2])
		p = sh(["git", "-C", REPO, "diff", "--binary"]).stdout
		with open(os.path.join(d, "patch.diff"), "wb") as f:
			f.write(p)
		b = sh(["bash", "/opt/vp/build.sh"])
		t = sh(["bash", "/opt/vp/test.sh", "/tmp/plant_out.json"])
		out = json.load(open("/tmp/plant_out.json"))
		stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
		passed = set(out.get("passed", []))
		miss = [s for s in stable if s not in passed]
		print("build", b.returncode, "stable tests failing:", miss[:5])
		ok = ok and not miss and b.returncode == 0
		r = demo(d)
		print("demo with bug:", r.returncode, r.stdout.decode()[-300:].strip())
		ok = ok and r.returncode != 0
		if "--check" in sys.argv:
			r = sh(["python3-vt", "-m", "symex.run", spec["PROPERTY"]], cwd=HERE)
			v = [l for l in r.stdout.decode().splitlines() if l.startswith(("VIOLATION", "  [", spec["PROPERTY"]))]
			print("CHECK", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED")
			print("\n".join(v[:4]))
	finally:
		clean()
	r = sh(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")])
	print("applies:", r.returncode)
	ok = ok and r.returncode == 0
	print("GOOD" if ok else "BAD", spec["ID"])
	if not ok and "--keep" not in sys.argv:
		for n in os.listdir(d):
			os.remove(os.path.join(d, n))
		os.rmdir(d)
	return 0 if ok else 1


sys.exit(main())
