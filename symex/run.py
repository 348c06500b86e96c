"""Check driver:  python3-vt -m symex.run PROPERTY [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

LEVEL_ASSUMPTIONS = [
	"CPython's documented semantics of the operations the engine models (integers, bytes, str, "
	"struct, re, codecs, file objects, POSIX file system calls)",
	"z3 is sound; CRC-32 of content longer than 24 symbolic bytes is an uninterpreted function of "
	"that content, MD5/SHA-1 are treated as collision free",
]


class Harness(object):
	def __init__(self, name, fn, cases=None, thorough_cases=None, limits=None, expect=(),
	             validate=True, weight=1.0, terminates=True):
		self.name = name
		self.fn = fn                 # function name in the props module
		self.cases = cases if cases is not None else [{}]
		self.thorough_cases = thorough_cases
		self.limits = limits or {}
		self.expect = tuple(expect)  # reachability witnesses
		self.validate = validate
		self.weight = weight
		self.terminates = terminates # a native run that doesn't end is a violation

	def case_list(self, tier):
		c = self.cases
		if tier == "thorough" and self.thorough_cases is not None:
			c = self.thorough_cases
		return list(c)


# ---------------------------------------------------------------- native server
def _drop(scratch_base):
	try:
		os.setgroups([])
		os.setgid(65534)
		os.setuid(65534)
	except OSError:
		pass


def die_with_parent():
	try:
		import ctypes
		ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
	except Exception:
		pass


def native_loop(conn, other, prop, scratch_base, tier):
	import warnings
	other.close()
	warnings.simplefilter("ignore")
	signal.signal(signal.SIGINT, signal.SIG_IGN)
	sys.path[:0] = [REPO, HERE]
	sys.dont_write_bytecode = True
	try:
		pm0 = importlib.import_module("props." + prop)
		for m in getattr(pm0, "PRELOAD", ()):
			importlib.import_module(m)
	except BaseException:
		pass
	_drop(scratch_base)
	die_with_parent()      # after the change of user, which clears it
	os.environ["HOME"] = scratch_base
	tempfile.tempdir = scratch_base
	from symex import harness
	try:
		pm = importlib.import_module("props." + prop)
	except BaseException:
		pm = None
		err = traceback.format_exc()
	n = 0
	while True:
		try:
			req = conn.recv()
		except EOFError:
			return
		if req is None:
			return
		hname, case, inputs = req
		n += 1
		d = os.path.join(scratch_base, "r%d_%d" % (os.getpid(), n))
		# deep enough that a relative escape stays inside the scratch area
		root = os.path.join(d, "a/b/c/d/e/f/w")
		os.makedirs(root)
		try:
			if pm is None:
				conn.send(("import-error", [err], [], err))
				continue
			h = [x for x in pm.HARNESSES if x.name == hname][0]
			res = harness.run_native(getattr(pm, h.fn), inputs, case, tier, root)
			try:
				data = pickle.dumps(res)
			except Exception:
				res = (res[0], res[1], [(l, repr(v)) for l, v in res[2]], res[3])
				data = pickle.dumps(res)
			conn.send_bytes(data)
		except BaseException:
			try:
				conn.send(("server-error", [traceback.format_exc()], [], None))
			except Exception:
				return
		finally:
			shutil.rmtree(d, ignore_errors=True)


class Native(object):
	def __init__(self, prop, scratch, tier):
		self.prop, self.scratch, self.tier = prop, scratch, tier
		self.proc = None

	def start(self):
		a, b = mp.Pipe()
		self.conn = a
		self.proc = mp.Process(target=native_loop, args=(b, a, self.prop, self.scratch, self.tier), daemon=True)
		self.proc.start()
		b.close()

	def run(self, hname, case, inputs, timeout=60):
		if self.proc is None or not self.proc.is_alive():
			self.start()
		self.conn.send((hname, case, inputs))
		if not self.conn.poll(timeout):
			self.proc.kill()
			self.proc.join()
			self.proc = None
			return ("timeout", ["native run did not finish in %d s" % timeout], [], None)
		try:
			return self.conn.recv()
		except EOFError:
			self.proc = None
			return ("died", ["native process died"], [], None)

	def stop(self):
		if self.proc is not None and self.proc.is_alive():
			try:
				self.conn.send(None)
			except Exception:
				pass
			self.proc.join(1)
			if self.proc.is_alive():
				self.proc.kill()


# ---------------------------------------------------------------- worker
class World(object):
	"""instrumented modules of one process"""

	def __init__(self, prop):
		from . import engine, terms, instrument, rt as R
		sys.path[:0] = [p for p in (HERE,) if p not in sys.path]
		self.rt = R.Runtime()
		self.loader = instrument.Loader(self.rt)
		self.loader.roots = [REPO, HERE]
		terms.set_engine(None)
		self.pm = self.loader.load("props." + prop)
		for m in getattr(self.pm, "PRELOAD", ()):
			self.loader.load(m)


def explore_path(world, eng, h, case, tier, prefix, opts):
	from . import terms as T, harness
	eng.rt = world.rt
	eng.start(prefix)
	eng.deadline = time.time() + opts["path_s"]
	sh = harness.SymH(eng, world.loader, case, tier)
	sh._patches = []
	outcome = "ok"
	detail = ""
	try:
		try:
			getattr(world.pm, h.fn)(sh)
		finally:
			for m, a, v in reversed(sh._patches):
				setattr(m, a, v)
		if eng.abort is not None:
			raise eng.abort
	except T.PathInfeasible as ex:
		outcome = "infeasible"
	except T.PathCut as ex:
		outcome = "cut"
		detail = str(ex)
	except T.EngineGap as ex:
		outcome = "gap"
		detail = str(ex)
		if opts.get("debug"):
			detail += "\n" + traceback.format_exc()
	except RecursionError as ex:
		outcome = "gap"
		detail = "recursion"
	except Exception as ex:
		if eng.abort is not None:
			a = eng.abort
			outcome = {"PathInfeasible": "infeasible", "PathCut": "cut"}.get(type(a).__name__, "gap")
			detail = str(a)
		else:
			outcome = "exception"
			detail = "%s: %s" % (type(ex).__name__, safe(ex))
			tb = traceback.format_exc()
			detail_tb = tb
			try:
				eng.get_model()
				sh.failures.append(("unexpected " + detail + ("\n" + tb[-1500:] if opts.get("debug") else ""),
				                    sh.model_inputs(None)))
			except T.Abort:
				outcome = "infeasible"
			if opts.get("debug"):
				detail += "\n" + tb
	return sh, outcome, detail


def safe(x):
	try:
		return str(x)[:300]
	except BaseException:
		return "?"


def worker_loop(conn, prop, tier, opts, scratch, seed):
	die_with_parent()
	signal.signal(signal.SIGINT, signal.SIG_IGN)
	import gc
	native = Native(prop, scratch, tier)
	native.start()
	try:
		world = World(prop)
	except BaseException:
		conn.send(("fatal", traceback.format_exc()))
		return
	from . import engine
	conn.send(("ready",))
	eng_cache = {}
	while True:
		msg = conn.recv()
		if msg is None:
			break
		hi, case, prefixes, slice_s, remaining_valid = msg
		h = world.pm.HARNESSES[hi]
		lim = dict(h.limits)
		if tier == "thorough":
			lim.update(lim.pop("thorough", {}))
		else:
			lim.pop("thorough", None)
		eng = engine.Engine(engine.Limits(**lim), seed)
		stack = list(prefixes)
		out = new_result()
		t_end = time.time() + slice_s
		while stack and time.time() < t_end:
			pfx = stack.pop()
			one_path(world, eng, h, case, tier, pfx, opts, native, out, remaining_valid)
			stack.extend(eng.pending)
			if len(stack) > 4 and out["stats"] is None:
				pass
		out["left"] = stack
		out["stats"] = eng.stats.as_dict()
		out["functions"] = sorted(f for f in eng.functions)
		conn.send(("done", hi, out))
	native.stop()


def new_result():
	return {"outcomes": {}, "violations": [], "spurious": [], "reached": {}, "gaps": {}, "samples": [],
	        "stats": None, "left": [], "incomplete": {}, "mismatch": [], "fallback": 0}


def one_path(world, eng, h, case, tier, pfx, opts, native, out, remaining_valid):
	from . import terms as T
	sh, outcome, detail = explore_path(world, eng, h, case, tier, pfx, opts)
	st = eng.stats
	o = out["outcomes"]
	o[outcome] = o.get(outcome, 0) + 1
	if outcome == "infeasible" and not sh.failures:
		st.infeasible += 1
		return
	st.paths += 1
	if outcome == "cut":
		st.cut += 1
		out["incomplete"]["bound: " + detail[:120]] = out["incomplete"].get("bound: " + detail[:120], 0) + 1
	if outcome == "gap":
		st.gaps += 1
		out["gaps"][detail] = out["gaps"].get(detail, 0) + 1
	if eng.incomplete:
		out["incomplete"][eng.incomplete] = out["incomplete"].get(eng.incomplete, 0) + 1
	for r in sh.reached:
		out["reached"][r] = out["reached"].get(r, 0) + 1
	for msg, inputs in sh.failures:
		if inputs is None:
			out["spurious"].append((h.name, msg, "no concrete model", case))
			continue
		if len(out["violations"]) >= 3:
			continue
		res = native.run(h.name, case, inputs, opts["native_s"])
		if res[0] in ("check", "timeout") or res[0].startswith("exception"):
			out["violations"].append({"harness": h.name, "case": case, "inputs": inputs, "message": msg,
			                          "native": res[1][:3], "trace": res[3], "outcome": res[0]})
		else:
			out["spurious"].append((h.name, msg, "native outcome %s" % res[0], case, small_inputs(inputs)))
	# a path the encoding could not finish: its concrete representative still
	# runs against the real code (never counted as decided)
	if outcome in ("gap", "cut") and not sh.failures and h.validate and out["fallback"] < 6:
		out["fallback"] += 1
		try:
			inputs = sh.model_inputs(None)
		except T.Abort:
			inputs = None
		if inputs is not None:
			res = native.run(h.name, case, inputs, opts["native_s"])
			if res[0] == "check" or res[0].startswith("exception") or res[0] == "timeout" and h.terminates:
				out["violations"].append({"harness": h.name, "case": case, "inputs": inputs,
				                          "message": "native run fails: " + str(res[1][:1]),
				                          "native": res[1][:3], "trace": res[3], "outcome": res[0]})
	# concolic cross validation of the encoding
	if outcome in ("ok",) and not sh.failures and h.validate and remaining_valid > st.validated:
		try:
			inputs = sh.model_inputs(None)
		except T.Abort:
			inputs = None
		if inputs is not None:
			res = native.run(h.name, case, inputs, opts["native_s"])
			ok = res[0] == "ok"
			why = None
			if not ok:
				why = "native %s %s" % (res[0], res[1][:2])
			else:
				try:
					why = compare_obs(sh, inputs, res[2])
				except T.Abort:
					why = "skip"
			if why is None:
				st.validated += 1
				if len(out["samples"]) < 2:
					out["samples"].append({"harness": h.name, "case": case, "decisions": len(eng.decisions),
					                       "inputs": small_inputs(inputs), "observed": small_obs(res[2])})
			elif why != "skip":
				if res[0] in ("check", "timeout") or res[0].startswith("exception"):
					# the real code fails this harness on an input the encoding
					# accepted: still a concrete violation of the property
					out["violations"].append({"harness": h.name, "case": case, "inputs": inputs,
					                          "message": "native run fails: " + str(res[1][:1]),
					                          "native": res[1][:3], "trace": res[3], "outcome": res[0]})
				else:
					st.mismatch += 1
					out["mismatch"].append((h.name, case, why, small_inputs(inputs)))


def compare_obs(sh, inputs, nobs):
	"""evaluate the symbolic observations under the concrete inputs"""
	import z3
	from . import harness, terms as T
	from .terms import bool_e
	E = sh.e
	sv = z3.Solver()
	sv.set("timeout", 5000)
	for p in E.pc:
		sv.add(p)
	for name, (kind, v) in inputs.items():
		if kind == "blob":
			src = E.sources.get(name)
			if src is not None and T.is_sym(src.len):
				sv.add(bool_e(src.len == len(v)))
			for s, i, e in E.sel_log:
				pass
		elif kind == "choice":
			pass
		else:
			sym = E.inputs[name][1]
			c = sym == v
			if T.is_sym(c):
				sv.add(bool_e(c))
			elif c is False and kind != "bool":
				return "input echo"
	r = sv.check()
	if r != z3.sat:
		return "skip" if r == z3.unknown else "inputs do not satisfy the path"
	m = sv.model()
	for s, i, e in E.sel_log:
		data = inputs[s.name][1]
		iv = m.eval(i, model_completion=True).as_long()
		if iv < len(data):
			sv.add(z3.Implies(i == iv, e == data[iv]))
	if E.crcs:
		import zlib
		blobs = {n: v for n, (k, v) in inputs.items() if k == "blob"}
		for rope, v in E.crcs:
			sv.add(bool_e(v == zlib.crc32(sh.val(m, rope, blobs))))
	r = sv.check()
	if r != z3.sat:
		return "skip"
	m = sv.model()
	blobs = {n: v for n, (k, v) in inputs.items() if k == "blob"}
	if len(nobs) != len(sh.obs):
		return "observation count %d != %d" % (len(sh.obs), len(nobs))
	for (l1, v1), (l2, v2) in zip(sh.obs, nobs):
		x = harness.norm_obs(sh.val(m, v1, blobs), harness.ROOT)
		if l1 != l2 or x != v2:
			return "observation %s: %s != native %s" % (l1, harness.short(x), harness.short(v2))
	return None


def small_inputs(inputs):
	return {k: (v if k2 != "blob" else None) if not isinstance(v, (bytes, str)) or len(v) <= 40
	        else "%s...(%d)" % (v[:24].hex() if isinstance(v, bytes) else v[:24], len(v))
	        for k, (k2, v) in ((k, (kk, vv.hex() if isinstance(vv, bytes) and len(vv) <= 40 else vv))
	                           for k, (kk, vv) in inputs.items())}


def small_obs(obs):
	return [[l, repr(v)[:80]] for l, v in obs[:6]]


# ---------------------------------------------------------------- master
def load_known(prop):
	p = os.path.join(HERE, "known_findings.json")
	if not os.path.isfile(p):
		return []
	with open(p) as f:
		return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def known_match(known, v):
	"""A listed finding names harness, case and the message it produces."""
	for k in known:
		if k["harness"] == v["harness"] and all(v["case"].get(a) == b for a, b in k.get("case", {}).items()) \
				and any(k["message"] in s for s in [v["message"]] + list(v["native"])):
			return k
	return None


def jsonable(x):
	if isinstance(x, bytes):
		return {"hex": x.hex()} if len(x) <= 1 << 22 else {"len": len(x)}
	if isinstance(x, dict):
		return {str(k): jsonable(v) for k, v in x.items()}
	if isinstance(x, (list, tuple)):
		return [jsonable(v) for v in x]
	return x


def unjson(x):
	if isinstance(x, dict):
		if set(x) == {"hex"}:
			return bytes.fromhex(x["hex"])
		return {k: unjson(v) for k, v in x.items()}
	if isinstance(x, list):
		return [unjson(v) for v in x]
	return x


def main(argv=None):
	ap = argparse.ArgumentParser()
	ap.add_argument("prop")
	ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
	ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
	ap.add_argument("--budget", type=float, default=None)
	ap.add_argument("--harness", action="append")
	ap.add_argument("--debug", action="store_true")
	ap.add_argument("--case", type=int, action="append", help="only these cases (by number, of every harness)")
	ap.add_argument("--all-violations", action="store_true")
	ap.add_argument("--replay")
	ap.add_argument("-v", action="store_true")
	a = ap.parse_args(argv)
	seed = int(os.environ.get("VERIF_SEED", "1"))
	tier = "thorough" if a.tier == "thorough" else "quick"
	t0 = time.time()
	sys.setrecursionlimit(6000)
	scratch = tempfile.mkdtemp(prefix="symex_")
	os.chmod(scratch, 0o777)
	try:
		if a.replay:
			return replay(a, tier, scratch)
		return run_check(a, seed, tier, t0, scratch)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)


def replay(a, tier, scratch):
	with open(a.replay) as f:
		r = json.load(f)
	n = Native(a.prop, scratch, tier)
	inputs = {k: tuple(v) for k, v in unjson(r["inputs"]).items()}
	res = n.run(r["harness"], unjson(r["case"]), inputs)
	n.stop()
	print("outcome:", res[0])
	for m in res[1]:
		print("  ", m)
	if res[3]:
		print(res[3])
	return 1 if res[0] != "ok" else 0


def run_check(a, seed, tier, t0, scratch):
	opts = {"path_s": 60 if tier == "quick" else 240, "native_s": 30, "debug": a.debug}
	prop = a.prop
	sys.path[:0] = [HERE]
	# the property module is also imported natively for its metadata
	sys.path[:0] = [REPO]
	pm = importlib.import_module("props." + prop)
	budget = a.budget or (getattr(pm, "QUICK_S", 100) if tier == "quick" else getattr(pm, "THOROUGH_S", 1500))
	known = load_known(prop)
	work = []            # [hi, case, prefix]
	order = []
	sel = []
	for hi, h in enumerate(pm.HARNESSES):
		if a.harness and h.name not in a.harness:
			continue
		sel.append(hi)
		for ci, case in enumerate(h.case_list(tier)):
			if not a.case or ci in a.case:
				order.append((hi, case, [[]]))
	percase = {}
	# interleave harnesses so that a budget cut does not starve one of them
	byh = {}
	for it in order:
		byh.setdefault(it[0], []).append(it)
	while any(byh.values()):
		for hi in list(byh):
			if byh[hi]:
				work.append(byh[hi].pop(0))
	work.reverse()
	jobs = max(1, min(a.jobs, 64))
	ctx = mp.get_context("fork")
	procs = []
	for _ in range(jobs):
		p, c = ctx.Pipe()
		pr = ctx.Process(target=worker_loop, args=(c, prop, tier, opts, scratch, seed))
		pr.start()
		c.close()
		procs.append((pr, p))
	res = new_result()
	from .engine import Stats
	stats = Stats()
	functions = set()
	per_h = {}
	idle = []
	busy = {}
	valid_cap = 40 if tier == "quick" else 120
	fatal = None
	violations = []
	stop = False
	ready = 0
	conns = {p: pr for pr, p in procs}
	timed_out = False
	while True:
		now = time.time()
		if now - t0 > budget and not timed_out:
			timed_out = True
		if violations and not a.all_violations:
			stop = True
		# dispatch
		if not stop and not timed_out:
			while idle and work:
				p = idle.pop()
				hi, case, pf = work.pop()
				n_idle = len(idle) + (jobs - ready)
				h = pm.HARNESSES[hi]
				vdone = per_h.get(hi, {}).get("validated", 0)
				slice_s = 0.3 if len(work) < jobs * 2 else 1.0
				p.send((hi, case, pf, slice_s, max(0, (valid_cap * 2 - vdone) // 2 or (1 if vdone < valid_cap * 2 else 0))))
				busy[p] = (hi, case, now)
		if not busy and (not work or stop or timed_out) and ready == jobs:
			break
		if fatal:
			break
		if (stop or timed_out) and busy and now - t0 > budget + 45:
			break
		for p in mpc.wait(list(conns), timeout=0.5):
			try:
				msg = p.recv()
			except EOFError:
				pr = conns.pop(p)
				ready = max(0, ready)
				if p in busy:
					hi, case, _ = busy.pop(p)
					res["incomplete"]["worker died"] = res["incomplete"].get("worker died", 0) + 1
				jobs -= 1
				if jobs == 0:
					fatal = "all workers died"
				ready -= 1
				continue
			if msg[0] == "ready":
				ready += 1
				idle.append(p)
			elif msg[0] == "fatal":
				fatal = msg[1]
				break
			else:
				_, hi, out = msg
				_, case, since = busy.pop(p)
				idle.append(p)
				pc = percase.setdefault((hi, json.dumps(case, default=str)), [0, 0.0])
				pc[0] += out["stats"]["paths"] if isinstance(out["stats"], dict) else out["stats"].paths
				pc[1] += time.time() - since
				merge(res, stats, per_h, functions, hi, out)
				for v in out["violations"]:
					k = known_match(known, v)
					if k is None:
						violations.append(v)
					else:
						res.setdefault("known", {}).setdefault(k["id"], (k, v))
				left = out["left"]
				if left:
					# split for parallelism
					k = max(1, min(jobs, len(left)))
					if len(work) > jobs * 3:
						# last in line: no case keeps the others waiting
						work.insert(0, (hi, case, left))
					else:
						for i in range(k):
							part = left[i::k]
							if part:
								work.insert(0, (hi, case, part))
	for pr, p in procs:
		try:
			p.send(None)
		except Exception:
			pass
	t_end = time.time() + 2
	for pr, p in procs:
		pr.join(max(0.05, t_end - time.time()))
		if pr.is_alive():
			pr.kill()
	if fatal:
		print("ERROR loading or running the encoding of %s:\n%s" % (prop, fatal))
		return 2
	complete = not work and not timed_out and not stop
	if a.v:
		for (hi, case), (n, sec) in sorted(percase.items(), key=lambda x: -x[1][1])[:40]:
			print("%8.1fs %6d paths  %s %s" % (sec, n, pm.HARNESSES[hi].name, case[:150]))
	return report(a, pm, prop, tier, seed, t0, res, stats, functions, per_h, violations, complete, sel,
	              sum(len(w[2]) for w in work))


def merge(res, stats, per_h, functions, hi, out):
	stats.add(out["stats"])
	ph = per_h.setdefault(hi, {"paths": 0, "validated": 0, "outcomes": {}, "reached": {}, "checks": 0,
	                           "solver_s": 0.0, "queries": 0})
	for k in ("paths", "validated", "checks", "queries"):
		ph[k] += out["stats"][k]
	ph["solver_s"] = round(ph["solver_s"] + out["stats"]["solver_s"], 3)
	for k in ("outcomes", "reached"):
		for x, n in out[k].items():
			ph[k][x] = ph[k].get(x, 0) + n
	for k in ("gaps", "incomplete"):
		for x, n in out[k].items():
			res[k][x] = res[k].get(x, 0) + n
	for k in ("spurious", "mismatch"):
		if len(res[k]) < 30:
			res[k].extend(out[k])
	if len([s for s in res["samples"] if s["harness"] == out["samples"][0]["harness"]]) < 2 \
			if out["samples"] else False:
		res["samples"].extend(out["samples"][:1])
	functions.update(out["functions"])


def report(a, pm, prop, tier, seed, t0, res, stats, functions, per_h, violations, complete, sel, nleft):
	wall = time.time() - t0
	hs = {}
	vac = []
	for hi in sel:
		h = pm.HARNESSES[hi]
		ph = per_h.get(hi, {})
		hs[h.name] = ph
		for e in h.expect:
			if not ph.get("reached", {}).get(e):
				vac.append("%s:%s" % (h.name, e))
	fns = sorted(f for f in functions if not f.startswith(("props.", "posixpath", "genericpath")))
	cov = {
		"states": stats.paths,
		"transitions": stats.decisions,
		"traces_validated_against_impl": stats.validated,
		"samples": jsonable(res["samples"][:8]),
		"exhaustive_within_bounds": bool(complete and not res["incomplete"] and not res["gaps"]),
		"unexplored_prefixes": nleft,
		"queries_discharged": stats.queries,
		"queries_sat": stats.sat,
		"queries_unsat": stats.unsat,
		"queries_unknown": stats.unknown,
		"solver_s": round(stats.solver_s, 2),
		"obligations_checked": stats.checks,
		"obligations_solver": stats.check_unsat,
		"obligations_syntactic": stats.check_trivial,
		"functions_encoded": fns,
		"bounds": getattr(pm, "BOUNDS", ""),
		"outside_bounds": getattr(pm, "OUTSIDE", ""),
		"harnesses": hs,
		"incomplete_paths": res["incomplete"],
		"engine_gaps": res["gaps"],
		"unreplayable_counterexamples": jsonable(res["spurious"][:10]),
		"encoding_mismatches": jsonable(res["mismatch"][:10]),
		"vacuity_missing": vac,
		"known_findings_seen": sorted(res.get("known", {})),
	}
	ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
	      "assumptions": LEVEL_ASSUMPTIONS + list(getattr(pm, "ASSUMPTIONS", [])),
	      "wall_s": round(wall, 2), "violations": len(violations)}
	os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
	if not a.harness:
		with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
			json.dump(ev, f, indent=1, sort_keys=True)
			f.write("\n")
	print("%s %s: %d paths, %d branch decisions, %d obligations (%d by solver), %d queries %.1fs solver, "
	      "%d validated natively, %d gaps, %d cut, complete=%s, %.1fs" % (
		prop, tier, stats.paths, stats.decisions, stats.checks, stats.check_unsat, stats.queries,
		stats.solver_s, stats.validated, stats.gaps, stats.cut, cov["exhaustive_within_bounds"], wall))
	if a.v or a.debug:
		print(json.dumps(hs, indent=1))
		for k in ("incomplete_paths", "engine_gaps", "unreplayable_counterexamples", "encoding_mismatches",
		          "vacuity_missing"):
			if cov[k]:
				print(k, json.dumps(cov[k], indent=1, default=str)[:6000])
	elif vac:
		print("note: reachability witnesses not met:", vac)
	for kid, (k, v) in sorted(res.get("known", {}).items()):
		print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
	rc = 0
	undecided = stats.gaps + stats.cut + len(res["spurious"]) + len(res["mismatch"])
	if undecided:
		print("note: %d of %d paths not decided by the encoding (see evidence)" % (undecided, stats.paths))
	if not stats.checks and not violations:
		print("ERROR: nothing was decided")
		rc = 2
	if a.all_violations:
		seen = set()
		violations = [v for v in violations if not ((v["harness"], v["message"][:60]) in seen or
		                                            seen.add((v["harness"], v["message"][:60])))]
	for i, v in enumerate(violations[:3] if not a.all_violations else violations[:20]):
		path = os.path.join(HERE, "evidence", "replay_%s_%d.json" % (prop, i))
		with open(path, "w") as f:
			json.dump(jsonable(v), f, indent=1)
		print("  [%s %s] %s" % (v["harness"], v["case"], v["message"]))
		for n in v["native"][:2]:
			print("    native: " + str(n))
		if a.debug and v["trace"]:
			print(v["trace"])
		print("VIOLATION property=%s replay=%s" % (prop, path))
		rc = 1
	return rc


if __name__ == "__main__":
	os.environ.setdefault("PYTHONHASHSEED", "0")
	if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
		os.environ["PYTHONHASHSEED"] = "0"
		os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
		os.execv(sys.executable, [sys.executable, "-m", "symex.run"] + sys.argv[1:])
	sys.exit(main())
