"""The analysis runs: which entry of which driver is interpreted, with which contracts, and what its findings mean."""
BASE = ["contracts.c", "models.c", "regex_model.c", "sys_model.c"]
import json, os
RUNS = []
PATH = ("d_parse.c", "d_form.c", "d_serve.c", "d_dispatch.c", "d_file.c", "d_server.c", "d_log.c")


def run(name, driver, entry, contracts=None, cats=None, sets=None, cost=1, tier="quick", parts=None, must=(), alloc=0, cap=0, base=BASE, real=(), opts=(), target=None):
    c = {"mem": "C01", "life": "C05", "uninit": "C01", "hang": "C13", "assert": "C29", "fmt": "C20"}
    c.update(cats or {})
    if driver in PATH and must:  # nothing on the way of a request ends the process: the way is gone to its end
        must = list(must) + ["C29|" + must[0].split("|", 1)[1]]
    RUNS.append({"name": name, "drivers": base + [driver], "entry": entry, "contracts": contracts or {}, "cats": c, "sets": sets or {},
                 "cost": cost, "tier": tier, "must": list(must), "parts": parts, "alloc": alloc, "cap": cap, "real": list(real), "opts": [str(o) for o in opts], "target": target})


# one function each, on inputs of every length and content
for e, m in (("e_strnstr", "strnstr finishes"), ("e_strnstr_region", "strnstr finishes on a region without terminator"),
             ("e_hash", "hashing finishes"), ("e_url_decode", "decoding finishes"), ("e_endswith", "comparing endings finishes")):
    run(e, "d_parse.c", e, must=["C13|" + m])
S = {"strnstr": "c_strnstr"}
run("e_header_value", "d_parse.c", "e_header_value", S, must=["C13|reading a header value finishes"])
run("e_cookie", "d_parse.c", "e_cookie", S, must=["C13|reading a cookie finishes"])
run("e_range", "d_parse.c", "e_range", S, must=["C13|parsing a range finishes"])
for e, m in (("header", "a header is found"), ("cookie", "a cookie is found"), ("request", "a request is given"), ("body", "a body is given")):
    run("given_" + e, "d_given.c", "e_given_" + e, {"strnstr": "c_find"}, must=["C30|" + m])
run("e_parse_request", "d_parse.c", "e_parse_request", S, must=["C13|parsing a request finishes"])
run("e_parse_body", "d_parse.c", "e_parse_body", S, must=["C13|parsing a body finishes"])
run("e_url_decode_out", "d_form.c", "e_url_decode_out", must=["C13|decoding into a buffer finishes"])
run("e_form", "d_form.c", "e_form", {"m38_url_decode": "c_url_decode", "sparse_dict_init": "c_dict_init", "sparse_dict_set": "c_dict_set"},
    cost=11, must=["C13|parsing a form finishes"])

# a whole request, with the parts above replaced by their contracts
SERVE = {"strnstr": "c_strnstr", "m38_get_header_value_raw": "c_header_value", "m38_parse_request": "c_parse_request",
         "m38_parse_body": "c_parse_body", "m38_parse_form_encoded_body": "c_parse_form", "sparse_dict_free": "c_dict_free",
         "m38_parse_range_header": "c_range"}
MADE, SENT, GIVEN_UP = "C13|a response is made", "C13|a response is sent", "C13|a request is given up"


def serve(name, cost=3, tier="quick", must=(MADE, SENT), alloc=0, cap=0, **sets):
    run("serve_" + name, "d_serve.c", "e_serve", SERVE, sets=sets, cost=cost, tier=tier, must=must, alloc=alloc, cap=cap)


# scene: 1 what describes the body varies, 2 the other headers, 4 how the request arrives, 8 how much each send accepts, 16 how a separate body arrives
ALL = (MADE, SENT, GIVEN_UP)
LIMIT = 4 << 20
serve("no_route", n_routes=0, scene=2)
serve("receive", scene=20, small_body=1, must=ALL, alloc=LIMIT)
serve("receive_send", scene=12, must=ALL)
serve("body", scene=17, small_body=1, cost=15, must=ALL, alloc=LIMIT)
serve("receive_body", scene=5, small_body=1, cost=27, must=ALL, alloc=LIMIT)
serve("receive_all", scene=21, small_body=1, cost=70, must=ALL, alloc=LIMIT, tier="thorough")
serve("receive_range", scene=6, cost=40, must=ALL, tier="thorough")
for st in (200, 206, 301, 302, 400, 403, 404, 500):
    serve("status_%d" % st, scene=2, wanted=st, cost=6)
    serve("send_%d" % st, scene=8, wanted=st)
    serve("empty_%d" % st, scene=2, wanted=st, want_nothing=1)
    serve("headers_%d" % st, scene=2, wanted=st, want_headers=2, want_mime=1, cost=30, cap=24)

# which handler answers: every verb of a list, every outcome of every pattern, each kind of not-found route
for m, what in enumerate(("built_in", "handler", "handler_cleanup", "cleanup_handler", "replaced")):
    run("dispatch_" + what, "d_dispatch.c", "e_dispatch",
        {"strnstr": "c_strnstr", "m38_get_header_value_raw": "c_disp_header", "m38_parse_request": "c_disp_request", "m38_parse_body": "c_disp_body"},
        sets={"scene": 0, "nf_mode": m}, cost=5, must=["C08|a request is dispatched"], base=["contracts.c", "models.c", "sys_model.c"])

run("e_log", "d_log.c", "e_log", cats={"mem": "C20", "life": "C20", "uninit": "C20"}, real=["m38_log_msg"], must=["C20|a message is logged"])

# files
FILE = {"gshkl_render": "c_render", "gshkl_free_context": "c_free_context"}
SERVED, UNSERVED = "C23|a file is served", "C22|a file cannot be served"
run("file_any", "d_file.c", "e_file_any", FILE, must=[SERVED, UNSERVED])
run("file_own_type", "d_file.c", "e_file_any", FILE, sets={"own_type": 1}, must=[SERVED, UNSERVED])
run("file_render", "d_file.c", "e_file_render", FILE, must=["C22|a file is rendered", "C22|a file cannot be rendered"])
for i in range(23):
    run("file_type_%d" % i, "d_file.c", "e_file_types", FILE, sets={"path_no": i}, must=[SERVED, UNSERVED])

# contexts for templates: every pair of things to add
for i, a in enumerate(CTX := ("string", "int", "array", "sub", "filter")):
    for j, b in enumerate(CTX):
        run("context_%s_%s" % (a, b), "d_context.c", "e_context", sets={"first": i, "second": j, "items": 2 if (i, j) == (1, 2) else 1, "number_kind": j & 1},
            cost=3 if 2 in (i, j) else 1, must=["C24|a context is filled and released", "C13|filling a context finishes"])


def serves(r):
    """the properties a run has obligations of (recorded by tools/mktags.py)"""
    return TAGS.get(r["name"], []) + (["C29"] if any(m.startswith("C29|") for m in r["must"]) and "C29" not in TAGS.get(r["name"], []) else [])


_f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tags.json")
TAGS = json.load(open(_f)) if os.path.exists(_f) else {}

# the threads of the server: each run executes one of them, at once or as late as possible
SRV = {"m38_generate_response": "c_srv_generate", "m38_send_response": "c_srv_send", "m38_abort_response": "c_srv_abort"}
for who, n, k in (("acceptor", 1, 0), ("responder", 1, 1), ("worker", 1, 2), ("worker_1_of_3", 3, 2), ("worker_2_of_3", 3, 3), ("worker_3_of_3", 3, 4)):
    for when in (0, 1):
        run("server_%s_%s" % (who, ("late", "early")[when]), "d_server.c", "e_server", SRV, sets={"n_threads": n, "run_kind": k, "early": when},
            cats={"life": "C10", "uninit": "C10"}, cost=2, must=["C10|a thread runs", "C24|serving ends as it should"], base=["contracts.c", "models.c"])

# vectors: elements of several sizes; one byte has no slack, 552 is larger than what templates store
def vectors(tag, sizes, cats):
    for k in sizes:
        for e, what in (("append", "an element is appended"), ("append_nothing", "nothing is appended"), ("append_ptr", "a pointer is appended"),
                        ("history", "five elements are appended"), ("reverse", "a vector is reversed"), ("reverse_few", "a few elements are reversed")):
            run("vector%s_%s_%d" % (tag, e, k), "d_vector.c", "e_vector_" + e, sets={"item": k}, cats=cats, must=["C15|" + what])
    run("vector%s_none" % tag, "d_vector.c", "e_vector_none", cats=cats, must=["C15|no vector is given"])


vectors("", (1, 3, 8, 552), {"mem": "C15", "life": "C15", "uninit": "C15"})
vectors("_use", (8,), {})

# dictionaries: every way the hashes of three keys fall onto each other and onto what is stored already
DICT = {"memcmp": "c_dict_memcmp", "strncmp": "c_dict_strncmp", "hash_fnv1a": "c_dict_hash"}


def dict_run(name, first, cost, cats, entry="e_dict", tier="quick", **sets):
    sets["first"] = first
    run("dict_%s_%d" % (name, first), "d_dict.c", entry, DICT, sets=sets, cost=cost, tier=tier, cap=5000, cats=cats,
        must=["C14|elements are stored and found" if entry == "e_sparse_array" else "C14|values are stored and found"])


OWN = {"mem": "C14", "life": "C14", "uninit": "C14"}
dict_run("use", 0, 5, {}, start=2, plan=1321, low_bits=2)
dict_run("empty", 0, 30, OWN, start=2, plan=121, low_bits=2, empty=1)
for name, quick, n, sets in (("grow", (0, 3, 7), 8, dict(start=2, fillers=1, plan=321, low_bits=8)), ("new", (0, 4, 7), 8, dict(start=0, plan=1321, low_bits=8, table=32)),
                             ("groups", (0, 5), 8, dict(start=0, bump=24, plan=321, low_bits=8, table=32)), ("wide", (3, 5), 7, dict(start=64, plan=1321, low_bits=7, table=64)),
                             ("one", (0, 6), 8, dict(start=1, plan=1321, low_bits=8))):
    for i in range(n):
        dict_run(name, i, 40, OWN, tier="quick" if i in quick else "thorough", **sets)
for i in range(15):
    dict_run("array", i, 46, OWN, "e_sparse_array", "quick" if i in (0, 4, 7, 8) else "thorough", elem=40)
dict_run("array_byte", 8, 52, OWN, "e_sparse_array", elem=1)
for name, many, by, tier in (("clash", 51, 0, "quick"), ("spread", 210, 37, "quick"), ("spread_more", 420, 37, "thorough")):
    run("dict_many_" + name, "d_dict.c", "e_dict_many", DICT, sets={"many": many, "spread_by": by}, cost=60, tier=tier, cap=5000, cats=OWN, opts=("--unroll", 5000),
        must=["C14|values are stored and found"])

# rendering: one internal function at a time; the functions it calls are replaced by what their own runs show
REND = {"vector_get": "c_r_get", "realloc": "c_r_realloc", "strstr": "c_r_strstr", "__assert_fail": "c_r_assert"}
FIND, VISHNU = {"find_needle": "c_r_find"}, {"vishnu": "c_vishnu"}


def part(name, entry, target, contracts, what, tier="quick", cost=3, fold=1, keep=1, **sets):
    run("render_" + name, "d_parts.c", entry, dict(REND, **contracts), {"mem": "C18", "life": "C18", "uninit": "C18", "assert": "C18"}, sets, cost, tier,
        ["logging", "vector"], ["C18|" + what], base=["models.c"], opts=["--fold", fold, "--guard", 0] + (["--keep-read"] if keep else []), target=target)


part("read_line", "e_read_line", "read_line", {}, "a line is read")
part("vishnu", "e_vishnu", "vishnu", {}, "a text is put into a line")
for d in (0, 1, 2):
    part("find_%d" % d, "e_find", "find_needle", {}, "a name is found", depth=d)
part("include", "e_include", "_include_line", {"gshkl_render": "c_render"}, "a file is included", scene=16)
for s, c, t in ((4, 40, "quick"), (8, 8, "quick"), (12, 75, "thorough")):
    part("filter_%d" % s, "e_filter_line", "_filter_line", {**FIND, **VISHNU}, "filters are applied", t, c, scene=s)
part("subcontext", "e_subcontext", "_interpolate_line_subcontext", {**FIND, **VISHNU}, "values of inner contexts are filled in", scene=2)
part("line", "e_line", "_interpolate_line", {"_interpolate_line_subcontext": "c_subcontext", "_include_line": "c_include", "_filter_line": "c_filter_line", **FIND, **VISHNU},
     "a line is filled in", scene=1)
part("loop", "e_block_loop", "_interpolate_loop", {"gshkl_render": "c_render", **FIND}, "a loop is rendered", scene=32)
for s, c in ((64, 27), (128, 15)):
    part("condition_%d" % s, "e_block_condition", "_interpolate_conditionals", {"gshkl_render": "c_render", "_interpolate_line": "c_line", **FIND},
         "a condition is rendered", cost=c, scene=s)
for z in (0, 1):
    part("whole_%d" % z, "e_whole", None, {"read_line": "c_read_line", "_interpolate_loop": "c_loop", "_interpolate_conditionals": "c_cond", "_interpolate_line": "c_line"},
         "a template is rendered", fold=3, keep=0, no_size=z)
