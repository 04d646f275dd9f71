#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, tests, files, mech, observe, claim=True, note="", na="", tech=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, observe=observe, claim=claim, note=note, na=na, tech=tech, state=state or []))

CMDS = ["memdb/keys.go", "memdb/strings.go", "memdb/hash.go", "memdb/list.go", "memdb/set.go"]
AI = "abstract interpretation of the SSA form (typestate per key, held locks, zone domain)"

p("C01", "Concurrent commands on one key behave as if run one after another",
  "Commands that clients run at the same time on the same key take effect one after the other: no update is lost, no client sees a value in the middle of a change, and what a command tested about the key (existence, type, old value) still holds when it acts on it. This holds for every data type, including the time to live of the key.",
  ["schedules", "histories"], "all interleavings of commands on the same key",
  "The tests run one goroutine; no test has two clients.",
  CMDS + ["memdb/locks.go", "memdb/memdb.go"], [("per-key reader/writer locks", "memdb/locks.go"), ("one critical section per command", "memdb/*.go executors")],
  ["replies and stored values"],
  note="Lockset and critical-section analysis on every path of all commands: each access to a key's value, deadline or contents happens under the lock of that very key (exclusively for writes), and tests and acts lie in the same section.")
p("C02", "Multi-key commands take effect in one step",
  "MSET, RENAME, LMOVE, SMOVE, SINTER, SUNION, SDIFF, SINTERSTORE, SUNIONSTORE and SDIFFSTORE read and change all the keys they name in one step. No concurrent command on any of these keys can see a part of their effect or slip in between reading one key and using another.",
  ["schedules"], "all interleavings of a multi-key command with other commands",
  "No test is concurrent.",
  ["memdb/strings.go", "memdb/keys.go", "memdb/list.go", "memdb/set.go", "memdb/locks.go"], [("locks of all keys taken together, in a fixed order", "memdb/locks.go")],
  ["values of all keys named by the command"],
  note="On every path that ends without an error, all keys are used inside one critical section that holds the locks of all of them.")
p("C03", "A command never leaves a key locked",
  "However a command ends (success, error, missing key, wrong type, early exit in the middle of its work), every later command on any key can proceed. No command releases exclusion that it does not have.",
  ["inputs", "histories"], "all ways a command can end",
  "The tests cover only a few of the several hundred ways the commands can end.",
  CMDS + ["memdb/locks.go", "memdb/concurrentMap.go"], [("deferred unlock", "memdb/*.go"), ("segment locks released", "memdb/concurrentMap.go")],
  ["progress of later commands on the same keys"],
  note="Lock balance on every path of every command: the set of held locks is empty at each return, each release matches a lock held in the same mode.")
p("C05", "A key past its deadline is treated exactly as a missing key",
  "For every command, a key whose time to live has passed gives the same reply and the same final state as a key that does not exist, and its old value never becomes visible again, also not under a new deadline or as part of a new value. Discarding it never removes a value that was stored after the deadline passed.",
  ["inputs", "histories", "schedules"], "all commands, all keys with a deadline, all moments, all interleavings of lazy deletion with writers",
  "Expiry is tested for single commands with sleeps only.",
  CMDS + ["memdb/memdb.go"], [("lazy deletion at the start of each command", "memdb/memdb.go")],
  ["replies for expired keys", "what is stored afterwards"],
  note="For each outcome of each command on a key found (or possibly) expired the outcome is compared with the command's outcome for a missing key; deletion of an expired key is only accepted when the expiry was established under the same lock.")
p("C06", "Time to live is set, kept, moved and cleared as documented",
  "Commands that replace a value (SET without KEEPTTL, MSET, the STORE forms, RENAME onto a key) leave no deadline of the old value behind; commands that modify a value in place keep its deadline; a key created afresh or deleted has none. EXPIRE and PERSIST, with their NX, XX, GT and LT conditions, the expiry options of SET, SETEX and RENAME set, keep, move or remove the deadline exactly as documented, and TTL reports it (-1 without deadline, -2 without key).",
  ["inputs", "histories"], "all commands, all prior deadline states",
  "Few combinations of command and prior deadline are tested.",
  CMDS + ["memdb/memdb.go"], [("deadline table next to the value table", "memdb/memdb.go")], ["TTL of keys"],
  note="The deadline effect of every path of every command is compared with the specification of the command for each prior deadline state.")
p("C07", "No key ever holds an empty collection",
  "A list, hash or set that loses its last element disappears together with its key, and no command creates a key holding an empty collection. So EXISTS, TYPE and KEYS never show a collection without elements.",
  ["inputs", "histories"], "all commands and arguments that remove elements or create collections",
  "Only single removals are tested, never to emptiness for each command.",
  ["memdb/hash.go", "memdb/list.go", "memdb/set.go"], [("emptiness test after removal", "memdb/hash.go, list.go, set.go")], ["EXISTS, TYPE"],
  note="At every path end the size of each stored collection is proved positive in the zone domain.")
p("C08", "A command that answers an error has changed nothing",
  "Whenever the reply is an error (wrong number of arguments, malformed number, wrong type, bad option, missing key), all keys, values and deadlines are what they were before the command, apart from already expired keys being discarded. In particular no part of a multi-argument command has been carried out.",
  ["inputs"], "all commands, all failing inputs",
  "Tests of failing inputs look at the reply only.",
  CMDS, [("checks precede effects", "memdb/*.go")], ["database state after error replies"],
  note="At each path end with an error reply the recorded effects on all keys are empty.")
p("C09", "A command on a key of another type is refused",
  "Every string, list, hash or set command given a key that holds a value of another type answers an error and leaves the value as it was. MGET answers nil for such keys, TYPE names the type actually stored.",
  ["inputs"], "all commands with all stored types", "Only some wrong-type cases are tested.",
  CMDS, [("type assertion on the stored value", "memdb/*.go")], ["replies on keys of another type"],
  note="Each outcome of a typed command that is not an error is shown to have established the right type for all its live keys.")
p("C12", "Every command gives exactly one reply",
  "For each request made of an array of words, the server writes exactly one complete reply to that client, in order, and no command ends without a reply value or with a hole inside an array reply.",
  ["inputs", "histories"], "all requests, all paths through all commands",
  "Tests sample replies.", CMDS + ["server/handler.go", "resp/data.go"], [("reply written after each command", "server/handler.go")], ["bytes written to the connection"],
  note="All command paths end with a non-nil reply; the connection loop writes exactly once per request on every path.")
p("C16", "Read-only commands never change the database",
  "GET, MGET, STRLEN, GETRANGE, EXISTS, KEYS, TTL, TYPE, PING and all reading commands on hashes, lists and sets leave every key, value and deadline unchanged, apart from discarding expired keys. Running them any number of times, in any state, is not observable by other clients.",
  ["inputs", "histories"], "all read commands on all states", "Tests do not compare states around reads.",
  CMDS + ["memdb/list_struct.go", "memdb/set_struct.go", "memdb/hash_struct.go"], [("no stores on read paths", "memdb/*.go")], ["database state after reads"],
  note="Effect analysis: no path of a read-only command stores into the tables, into a stored container or into stored bytes.")
p("C18", "A value once stored or replied never changes under its holder",
  "The bytes of a stored string, field, element or reply are never modified in place: a change to a key always stores new bytes, so a reply being sent, or a copy held by another key, keeps its content whatever later commands do.",
  ["schedules", "histories"], "all later writes while earlier replies or copies are in use", "No test keeps an old reply while writing.",
  CMDS, [("copy before modification", "memdb/strings.go")], ["content of earlier replies and of other keys"],
  note="Ownership analysis: every store into or append onto a byte slice targets memory allocated in the same command that was not yet published.")
p("C19", "Malformed requests are refused, well-formed ones are not",
  "A request with a number of words the command does not take, or with a word that is not a number where a number is required, is answered with an error and has no effect; so is one with an unknown or conflicting option or direction (SET, EXPIRE, LINSERT, LMOVE, LPOS, HRANDFIELD), or with a count that has to be positive and is not. A request with the documented number of words, well-formed numbers and keys of the right type is never answered with an error (except where the documentation of the command says so, e.g. an index out of range).",
  ["inputs"], "all word counts and all argument texts", "Few word counts per command are tested.",
  CMDS, [("argument checks", "memdb/*.go")], ["replies and effects for malformed requests"],
  note="The number of words is an unbounded integer in the zone domain: every non-error path end implies the documented arity; each documented arity has a non-error path end; a failed number parse never reaches a non-error end.")
p("C20", "Commands on missing keys answer and act as documented",
  "For a missing key, reading commands answer nil, zero or an empty result and leave it missing, removing commands answer zero or nil, and writing commands create it with exactly the given content and no deadline but the one they name. RENAME, LSET and LTRIM on a missing key answer an error.",
  ["inputs"], "all commands on missing keys", "Only a part of the commands is tested on missing keys.",
  CMDS, [("missing-key branches", "memdb/*.go")], ["replies and state for missing keys"],
  note="Each path end for a missing key is compared with the command's entry in the specification table.")
p("C21", "Data is neither lost nor invented",
  "A live key disappears only when it is deleted, renamed, overwritten or its collection becomes empty, and a command changes no key it does not name. RENAME, LMOVE and SMOVE move exactly the value, element or member (also when source and destination are the same), and LPOP, RPOP and SPOP remove what they answer.",
  ["inputs", "histories"], "all commands and states, including equal source and destination", "Tests do not check other keys or equal source and destination.",
  CMDS, [("store/delete pairing", "memdb/*.go")], ["state of all keys after the command"],
  note="Frame and conservation obligations at each path end, with separate analyses for equal source and destination.")
p("C24", "Count and status replies tell the truth",
  "Integer replies state what was done: DEL, EXISTS, SADD, SREM, HSET, HDEL and the STORE forms answer the number of keys, members or fields actually removed, found, added or stored; LLEN, SCARD, HLEN, STRLEN and the pushes answer the actual size; SETNX, HSETNX, SMOVE, EXPIRE and PERSIST answer 1 exactly when they acted. INCR, DECR and their BY forms answer the value they stored, which is the old value plus (or minus) the step.",
  ["inputs"], "all arguments including duplicates, all states", "Duplicate members, mixed present and missing arguments are hardly tested.",
  CMDS + ["memdb/set_struct.go", "memdb/hash_struct.go", "memdb/list_struct.go"], [("counters in loops over arguments", "memdb/*.go")], ["integer replies"],
  note="Replies are compared in the zone domain with ghost counters of insertions and removals, for one and two (three) arguments with unrolled loops and in general where the relation is linear.")
p("C27", "What was written is what is read",
  "The bytes a command stores are exactly the bytes of the request word meant for it (SET, MSET, SETEX, SETNX, APPEND, SETRANGE, HSET, pushes, SADD), stored under exactly the named key and field, and the bytes a command answers are exactly the ones stored (GET, GETRANGE, MGET, HGET, HMGET, pops, SET with GET). Conditional writes (NX, XX) write exactly when their condition holds.",
  ["inputs"], "all byte strings, keys, fields and states", "A handful of ASCII strings are tested.",
  CMDS, [("word to value plumbing", "memdb/*.go")], ["stored values and bulk replies"],
  note="Symbolic value tracking: the stored or replied term is the term of the right word of the request or of the previous content.")

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None
P.sort(key=lambda x: x["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "observe_at": x["observe"], "hook_needed": None}
        if x["state"]: a["state"] = x["state"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["tests"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for x in P:
    if x["claim"]:
        m["checks"].append({"property": x["id"], "quick_cmd": "./run.sh " + x["id"], "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + x["id"],
            "technique": "static analysis: " + (x["tech"] or AI), "level": "other",
            "level_note": x["note"] + " Decided from the source for all inputs and interleavings within the modelling assumptions of DESIGN.md; trusts go/ssa, the analyser and its models of the standard library."})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
