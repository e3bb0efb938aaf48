#!/usr/bin/env python3
"""check.py <ID>: decides one property for /repo's working tree (see DESIGN.md)."""
import glob, hashlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
from vlib import Report, build_harness, tier, ALT, BACKENDS

CHECKS = {}


def check(f):
    CHECKS[f.__name__.upper()] = f
    return f


def build_all(jobs):
    """jobs: {name: (args, kwargs) of build_harness}; built in parallel per library."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        futs = {k: ex.submit(build_harness, *a, **kw) for k, (a, kw) in jobs.items()}
        return {k: f.result() for k, f in futs.items()}


def backends_harness(src, san="asan", backends=BACKENDS, **kw):
    return build_all({b: ((src, b, san), kw) for b in backends})


def sweep(r, src, cases, san="asan", args=(), timeout=700, **kw):
    """Runs SRC's cases on each backend: cases = {backend: number}."""
    exes = backends_harness(src, san, [b for b in BACKENDS + tuple(ALT) if cases.get(b)], **kw)
    for b, exe in exes.items():
        r.run_shards(exe, cases[b], args=args, timeout=timeout, label=b)


def compilers(r, src, q, t, args=()):
    """The same cases on builds without sanitizers, by both compilers and with other optimization: "plain" is the build
    that the repository's own makefiles make."""
    sans = ("plain", "gcc0", "gcc3", "clang0", "clang3")
    exes = build_all({s: ((src, "ref", s), {}) for s in sans})
    for s, exe in exes.items():
        r.run_shards(exe, tier(q, t), args=args, label=s)
        r.event("cases_" + s, tier(q, t))


@check
def c01():
    r = Report("C01")
    r.rule = ("case i takes handshake pattern i mod 38 and prefix/DH/cipher/hash from a 32-way "
              "rotation, random keys, prologue, payload sizes, creation and key-setting API; mode "
              "cycles library/library byte-exact, library/model, model/library, library/library "
              "random; a signature is protocol name + mode + payload sizes + prologue size")
    sweep(r, "c01_conform.cpp", cases((3200, 1300, 1300), (30000, 12000, 12000), (200, 4000)))
    compilers(r, "c01_conform.cpp", 300, 3000)
    return r.finish(["messages_byte_exact", "messages_read_by_model", "messages_read_by_library",
                     "transport_messages", "remote_statics_checked"])

def cases(q, t, alt=None):
    """Cases per backend, (ref, sodium, openssl), for quick and thorough; alt: (quick, thorough) cases
    for each build that takes the code of other platforms (32-bit words, other field arithmetic)."""
    d = dict(zip(BACKENDS, tier(q, t)))
    if alt:
        d.update({b: tier(*alt) for b in ALT})
    return d


@check
def c02():
    r = Report("C02")
    r.rule = ("one case is two ends with fixed ephemerals, each shadowed by its own executable model of the "
              "specification, an active network that alters messages, and configurations that may differ "
              "(prologue, psk, keys believed, cipher, hash, prefix, pattern) or an impostor lacking the "
              "private key it claims; a signature is protocol + difference + payload sizes + tampering")
    sweep(r, "c02_tamper.cpp", cases((6000, 2500, 2500), (80000, 30000, 30000)))
    return r.finish(["messages_rejected", "messages_accepted", "completed_agreeing", "impostor_runs",
                     "tampered_flip-tail", "tampered_replay", "failed_states_checked"])


@check
def c03():
    r = Report("C03")
    r.rule = ("one case is 60-120 calls of the HandshakeState API on an initiator and a responder in random, "
              "mostly wrong or malformed order, each compared with a model of the documented states and "
              "error codes; a signature is the whole sequence of calls")
    sweep(r, "c03_api.cpp", cases((7000, 3000, 3000), (80000, 30000, 30000)))
    return r.finish(["splits", "fallbacks", "handshake_messages_read", "state_FAILED", "state_COMPLETE"])


@check
def c04():
    r = Report("C04")
    r.rule = ("one case is a random sequence of key, nonce, encrypt and decrypt calls on one CipherState, with sizes around every block boundary and "
              "limit, compared with the AEAD definition computed by libcrypto; a signature is the sequence")
    sweep(r, "c04_cipher.cpp", cases((5000, 4000, 4000), (60000, 50000, 50000), (1500, 20000)), args=["--mode", "aead"])
    compilers(r, "c04_cipher.cpp", 500, 6000, args=["--mode", "aead"])
    return r.finish(["encryptions", "decryptions", "forgeries_rejected", "encryptions_rejected",
                     "poly1305_tag_edges", "poly1305_inner_edges"])


@check
def c29():
    r = Report("C29")
    r.rule = ("one case is a random sequence of mix, encrypt, decrypt and split calls, good and refused, on one SymmetricState "
              "of one of all protocol names, compared step by step with the specification's definition computed by libcrypto; "
              "a signature is the sequence")
    sweep(r, "c04_cipher.cpp", cases((6000, 2500, 2500), (60000, 30000, 30000)), args=["--mode", "sym"])
    return r.finish(["encryptions", "decryptions", "forgeries_rejected", "splits", "mixes", "limits", "null_arguments_refused",
                     "creations_refused"])


EVP_CALLS = (["EVP_CIPHER_CTX_reset", "EVP_CIPHER_CTX_ctrl"] + ["EVP_" + d + f for d in ("Encrypt", "Decrypt") for f in
             ("Init_ex", "Update", "Final_ex", "Final", "Init")] + ["EVP_Cipher" + f for f in ("Init_ex", "Update", "Final_ex")])


@check
def c05():
    r = Report("C05")
    r.rule = ("one case is a sequence of encryptions and of forged ciphertexts (13 kinds) on one CipherState; after "
              "each rejection the whole caller buffer is searched for any 16 bytes of the plaintext or of what "
              "unauthenticated decryption would give; handshake payload buffers are searched the same way")
    sweep(r, "c04_cipher.cpp", cases((5000, 4000, 4000), (60000, 50000, 50000)), args=["--mode", "release"])
    sweep(r, "c02_tamper.cpp", cases((2000, 1000, 1000), (30000, 10000, 10000)))
    sweep(r, "c05_evp.cpp", {"openssl": tier(1500, 40000)}, extra=["-Wl,--wrap=" + f for f in EVP_CALLS])
    return r.finish(["forgeries_rejected", "rejected_tagflip", "rejected_bodyflip", "rejected_replay",
                     "rejected_otherkey", "rejected_ad", "messages_rejected", "failed_decryptions", "failed_encryptions"])


@check
def c20():
    r = Report("C20")
    r.rule = ("one case is a handshake whose first message fails (stale responder key), is declined or is altered, "
              "followed by fallback of both ends to XXfallback[+hfs], byte-compared with the specification's model, "
              "with tampering and prologue mismatches; a signature is protocol + trigger + order + tampering")
    sweep(r, "c20_fallback.cpp", cases((4000, 2000, 2000), (50000, 20000, 20000)))
    return r.finish(["fallbacks", "fallback_messages_byte_exact", "fallback_handshakes_completed", "fallback_rejected"])


@check
def c27():
    r = Report("C27")
    r.rule = ("one case is two CipherStates with one key and a network that reorders, replays, drops and corrupts, "
              "plus nonce jumps, rewinds and exhaustion; every ciphertext is compared with the AEAD under the "
              "next nonce and every delivery with the expected-nonce rule; a signature is the event sequence")
    sweep(r, "c04_cipher.cpp", cases((8000, 6000, 6000), (100000, 80000, 80000)), args=["--mode", "nonce"])
    return r.finish(["sent", "delivered", "replays_rejected", "future_rejected", "rewinds_rejected",
                     "exhausted_encryptions_rejected", "corrupt_rejected"])


@check
def c06():
    r = Report("C06")
    r.rule = ("one case is a handshake in which every write is tried with every buffer size around the exact one and "
              "every read with truncations, extensions and payload buffers around the exact size, in exact-size heap "
              "buffers; a signature is protocol + payload sizes")
    sweep(r, "c06_bounds.cpp", cases((500, 150, 150), (8000, 2500, 2500)))
    sweep(r, "c04_cipher.cpp", cases((1500, 800, 800), (20000, 8000, 8000)), args=["--mode", "aead"])
    return r.finish(["writes_accepted", "writes_refused", "reads_accepted", "reads_refused", "truncations_refused",
                     "longest_messages", "overlong_refused"])


@check
def c12():
    r = Report("C12")
    r.rule = ("one case is two key objects of one curve with edge-biased private and public keys, taken through a "
              "random choice of API paths, every result compared with libcrypto or a big-integer Montgomery ladder; "
              "a signature is curve + key kinds + path")
    sweep(r, "c12_keys.cpp", cases((4000, 2500, 1000), (60000, 40000, 15000), (1500, 20000)), args=["--mode", "dh"])
    compilers(r, "c12_keys.cpp", 400, 5000, args=["--mode", "dh"])
    return r.finish(["agreements_between_pairs", "shared_secrets_compared", "low_order_points", "null_agreements",
                     "public_keys_derived", "mismatched_pairs_rejected", "refused_calls", "chosen_results"])


@check
def c13():
    r = Report("C13")
    r.rule = ("one case is a NewHope exchange from random or structured seeds, honest or with one public message "
              "altered, each value compared with an independent NewHope; a signature is the kind of case + seeds")
    sweep(r, "c12_keys.cpp", cases((1000, 300, 300), (20000, 3000, 3000), (60, 1000)), args=["--mode", "newhope"])
    compilers(r, "c12_keys.cpp", 60, 800, args=["--mode", "newhope"])
    return r.finish(["honest_agreements", "altered_exchanges", "dependent_refused", "uniform_retries",
                     "uniform_just_enough"])


@check
def c14():
    r = Report("C14")
    r.rule = ("one case is one Ed25519 key and message: signature compared with libcrypto's, verified, then forged in "
              "every listed way; a signature is the key kind + message size + forgeries")
    sweep(r, "c12_keys.cpp", cases((1800, 900, 600), (30000, 15000, 8000), (500, 8000)), args=["--mode", "sign"])
    compilers(r, "c12_keys.cpp", 200, 3000, args=["--mode", "sign"])
    return r.finish(["signatures_compared", "signatures_verified", "forgeries_rejected"])


@check
def c15():
    r = Report("C15")
    r.rule = ("one case is one hash with several inputs in random chunkings, HKDF and PBKDF2 parameters, compared with "
              "libcrypto; huge cases pass 2^32 bits or bytes; a signature is the sizes and chunking")
    sweep(r, "c15_hash.cpp", cases((12000, 6000, 6000), (150000, 80000, 80000), (1500, 20000)), args=["--mode", "ops"])
    compilers(r, "c15_hash.cpp", 600, 8000, args=["--mode", "ops"])
    sweep(r, "c15_hash.cpp", {"ref": 9} if vlib.TIER == "quick" else {"ref": 21, "sodium": 21, "openssl": 21},
          san="plain", args=["--mode", "huge"])
    return r.finish(["digests_streamed", "digests_one", "digests_two", "hkdf_outputs", "pbkdf2_outputs",
                     "wrong_lengths_rejected", "null_arguments_refused", "huge_digests", "huge_pbkdf2"])


@check
def c16():
    r = Report("C16")
    r.rule = ("cases 0..199 go through all valid protocol names; later cases are mutated names and random ids; a "
              "signature is the string or id tried")
    sweep(r, "c16_names.cpp", {"ref": tier(12000, 300000)}, args=["--mode", "names"])
    return r.finish(["names_parsed", "names_rejected", "names_formatted", "roundtrips", "bad_ids_refused",
                     "single_names_found", "ids_found"])


@check
def c28():
    r = Report("C28")
    r.rule = ("one case is a set of error codes, buffer sizes, keys and byte arrays given to the utility functions and "
              "compared with a reimplementation; a signature is the values")
    sweep(r, "c16_names.cpp", cases((6000, 2000, 2000), (100000, 30000, 30000)), args=["--mode", "utils"])
    return r.finish(["error_strings", "fingerprints", "fingerprints_refused", "comparisons", "perror_lines", "null_arguments_refused"])


@check
def c09():
    r = Report("C09")
    r.rule = ("cases 0..255 are blocks of UTF-8 candidates; later cases are a random tree of fields written, measured, "
              "written into short buffers, peeked and read back, then damaged encodings and misuse, against an "
              "independent codec; a signature is the encoding")
    sweep(r, "c09_pbuf.cpp", {"ref": tier(30000, 600000)})
    return r.finish(["outputs_exact", "short_buffers_refused", "measured", "peeks", "scalars_read", "delimited_read",
                     "elements_read", "skipped", "hostile_scalars", "hostile_delimited", "misuse_refused",
                     "array_inserts", "block_inserts", "utf8_accepted", "utf8_rejected"])


@check
def c10():
    r = Report("C10")
    r.rule = ("one case is one certificate or key object changed by up to 40 random operations beside a model, written "
              "(measured, exact, too short), read back, and read from damaged encodings that an independent decoder "
              "judges too, with live-heap accounting; a signature is the object type and its encoding")
    sweep(r, "c10_cert.cpp", {"ref": tier(30000, 600000)})
    return r.finish(["objects_written", "roundtrips", "objects_read", "malformed_rejected", "leak_checks",
                     "unknown_fields", "short_buffers_refused", "bad_strings_refused", "null_arguments_refused",
                     "cleared", "objects_added", "values_set"])


@check
def c23():
    import random, re, shutil, tempfile
    import protocgen as pg
    r = Report("C23")
    r.rule = ("random .proto files (packages, nested messages, enums, all types and qualifiers, edge tags) are compiled by "
              "noise-protoc, the C code is compiled and driven through random object histories against a model and an "
              "independent codec; 46 kinds of invalid files and random invalid ones must be refused without output; mutated files must end "
              "without a fault; a signature is a .proto file or an object's encoding")
    exe = pg.build_protoc()
    d = os.path.join(vlib.BUILD, "proto-run-%d" % os.getpid())
    os.makedirs(d)
    try:
        jobs = [("test", pg.testproto())]
        for i in range(tier(11, 80)):
            jobs.append(("r%d" % i, pg.gen_proto(random.Random("c23-%d-%d" % (vlib.SEED, i)))))
        for b in ("asan",):
            vlib.build_lib("ref", b)
        lic = os.path.join(d, "LICENSE")
        with open(lic, "w") as fh:
            fh.write("Some licence text 4711\n\nsecond paragraph\n")

        def one(job):
            name, (text, msgs, macros) = job
            rc, err, c, h = pg.run_protoc(exe, text, d, name, lic)
            if rc != 0 or not c or not h:
                if rc is not None and "Sanitizer" in err or "runtime error" in err:
                    return job, "crash:" + vlib.crash_key(err), err, None
                return job, "valid-refused", "rc=%s %s\n%s" % (rc, err, text), None
            if "Some licence text 4711" not in c or "second paragraph" not in h:
                return job, "licence", "the licence is missing from the output", None
            rc2, _, c2, h2 = pg.run_protoc(exe, text, d, name, lic)
            if (c2, h2) != (c, h):
                return job, "nondeterministic", "two runs gave different output", None
            o = os.path.join(d, name + ".o")
            cc, sf = vlib.SAN["asan"]
            try:
                vlib.run([cc, "-std=c99", "-c", os.path.join(d, name + ".c"), "-o", o, "-w", "-Werror=implicit-function-declaration",
                          "-Werror=incompatible-pointer-types", "-I" + os.path.join(vlib.REPO, "include")] + sf)
            except vlib.BuildError as e:
                return job, "does-not-compile", str(e)[-3000:] + text, None
            cpp = os.path.join(d, "h_" + name + ".cpp")
            with open(cpp, "w") as fh:
                fh.write(pg.harness_cpp(name + ".h", msgs, macros))
            try:
                hx = build_harness(cpp, "ref", "asan", extra=["-O0", "-I" + d, o], tag="-%d" % os.getpid())
            except vlib.BuildError as e:
                return job, "api-mismatch", str(e)[:3000] + text, None
            return job, None, None, hx
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        for (name, (text, msgs, macros)), key, msg, hx in res:
            r.case(text, "%s: %d messages, %d fields" % (name, len(msgs), sum(len(m.fields) for m in msgs)))
            if key:
                r.violation(key, msg[:1500], {"proto": text, "msg": msg})
                continue
            r.event("proto_files_compiled")
            r.event("message_types_driven", len(msgs))
            r.run_shards(hx, tier(600, 5000), label=name)
            os.unlink(hx)
        # invalid files
        for what, text in pg.BAD:
            for pre in ("syntax=\"proto3\";\n", "// x\n") if text is not None else ("",):
                for good in ("", pg.GOOD):
                    src = "syntax=\"proto2\";" + pg.GOOD if text is None else \
                        pre + (good if "outside" not in what else "") + text + "\n"
                    rc, err, c, h = pg.run_protoc(exe, src, d, "bad")
                    r.case("bad " + src, "%s refused" % what)
                    if rc != 1 or c is not None or h is not None:
                        r.violation("invalid-accepted:" + what, "rc=%s output=%s\n%s" % (rc, c is not None, err[-600:]), src)
                    else:
                        r.event("invalid_files_refused")
        rnd = random.Random("c23-bad-%d" % vlib.SEED)
        for _ in range(tier(150, 3000)):
            what, src = pg.gen_bad(rnd)
            rc, err, c, h = pg.run_protoc(exe, src, d, "bad")
            r.case("bad " + src, "%s refused" % what)
            if rc != 1 or c is not None or h is not None:
                r.violation("invalid-accepted:" + what, "rc=%s output=%s\n%s\n%s" % (rc, c is not None, err[-600:], src), src)
            else:
                r.event("invalid_files_refused")
        # mutated files
        rnd = random.Random("c23-mut-%d" % vlib.SEED)
        texts = [j[1][0] for j in jobs]
        muts = [pg.mutate(rnd, rnd.choice(texts)) for _ in range(tier(1200, 30000))]

        def mut(x):
            i, m = x
            res = pg.run_protoc(exe, m, d, "m%d" % i)
            for e in (".proto", ".c", ".h"):
                f = os.path.join(d, "m%d%s" % (i, e))
                if os.path.exists(f):
                    os.unlink(f)
            return m, res
        with ThreadPoolExecutor(8) as ex:
            for m, (rc, err, c, h) in ex.map(mut, enumerate(muts)):
                r.case("mut " + m.hex())
                if rc == 0 and c and h:
                    r.event("mutated_accepted")
                elif rc == 1 and c is None and h is None and err.strip():
                    r.event("mutated_refused")
                elif rc is None:
                    r.violation("hang", "noise-protoc did not end", m.decode(errors="replace"))
                else:
                    r.violation("mutated:" + (vlib.crash_key(err) if rc not in (0, 1) else "output-left" if c or h else "silent"),
                                "rc=%s %s" % (rc, err[-1500:]), m.decode(errors="replace"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.finish(["proto_files_compiled", "objects_written", "roundtrips", "malformed_rejected", "invalid_files_refused",
                     "mutated_refused", "mutated_accepted", "leak_checks", "null_arguments_refused"])


@check
def c11():
    r = Report("C11")
    r.rule = ("one case saves a random private key (7 algorithms names good and bad, buffers too small, files) and decrypts "
              "it independently, or loads independently sealed keys with right and wrong passphrases and 12 alterations; "
              "a signature is the kind of case + content")
    sweep(r, "c11_keyfile.cpp", cases((1400, 450, 450), (24000, 8000, 8000)))
    return r.finish(["keys_saved", "keys_loaded", "saved_decrypted_independently", "wrong_passphrases", "refused_mac",
                     "refused_name", "refused_format", "buffers_searched", "overlong_refused", "files_loaded", "longest_files", "overlong_files_refused"])


@check
def c24():
    import shutil
    r = Report("C24")
    r.rule = ("one case runs noise-keytool in a scratch directory: random good and faulty generate commands whose files are "
              "decoded, opened and matched independently, show on random certificates, chains and private keys (good, damaged, "
              "missing, with the wrong passphrase, several at once), usage errors; a signature is the command or the text shown")
    d = os.path.join(vlib.BUILD, "keytool-run-%d" % os.getpid())
    os.makedirs(d)
    try:
        for b, n in (("ref", tier(420, 8000)), ("openssl", tier(90, 2000))):
            tool = vlib.build_keytool(b)
            exe = build_harness("c24_keytool.cpp", b, "asan")
            r.run_shards(exe, n, ["--tool", tool, "--dir", d], label=b)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.finish(["generated", "keys_checked", "shown_own-key", "shown_own-certificate", "shown_certificate", "shown_chain",
                     "shown_private-key", "shown_several", "show_refused", "usage", "generate_refused_algorithm",
                     "generate_refused_mismatch", "generate_refused_cert-file", "generate_refused_disk-full", "terminal_prompts"])


@check
def c30():
    import shutil
    r = Report("C30")
    r.rule = ("one case runs echo-server, echo-client or echo-keygen as processes on the loopback network against a model of the "
              "specification playing the other end, honest or hostile, or all three together, or with wrong usage, keys and names; "
              "a signature is the protocol with the kind of session")
    d = os.path.join(vlib.BUILD, "echo-run-%d" % os.getpid())
    os.makedirs(d)
    try:
        for b, n in (("ref", tier(240, 4000)), ("openssl", tier(64, 1500))):
            p = vlib.build_echo(b)
            exe = build_harness("c30_echo.cpp", b, "asan")
            r.run_shards(exe, n, ["--bin", p, "--dir", d], label=b)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.finish(["servers", "sessions_completed", "echoes", "server_messages_checked", "client_sessions", "client_sessions_refused",
                     "lines_echoed", "padded_messages", "keys_generated", "usage_refused", "together", "idle_connections",
                     "keys_with_white_space", "ephemerals", "known_probes"])


def libfuzzer(r, src, runs, procs, seeds=(), max_len=2048, dictionary=None, backend="ref", timeout=600, extra=()):
    """Runs SRC as a libFuzzer target; each process has its own seed and corpus."""
    import json, re, shutil, subprocess
    from concurrent.futures import ThreadPoolExecutor
    exe = build_harness(src, backend, "fuzz", extra=extra)
    d = os.path.join(vlib.BUILD, "fuzz-%s-%d" % (r.prop, os.getpid()))
    os.makedirs(d)
    env = dict(os.environ)
    env.update(vlib.SAN_ENV)
    if dictionary:
        with open(os.path.join(d, "dict"), "w") as fh:
            fh.write(dictionary)

    def one(i):
        c, a = os.path.join(d, "c%d" % i), os.path.join(d, "a%d-" % i)
        os.makedirs(c)
        for j, s in enumerate(seeds):
            with open(os.path.join(c, "s%d" % j), "wb") as fh:
                fh.write(s)
        cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (vlib.SEED * 1000 + i + 1), "-max_len=%d" % max_len, "-timeout=20",
               "-rss_limit_mb=2500", "-print_final_stats=1", "-artifact_prefix=" + a, "-reload=0", "-len_control=20"]
        if dictionary:
            cmd.append("-dict=" + os.path.join(d, "dict"))
        try:
            p = subprocess.run(cmd + [c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
            return p.returncode, p.stdout.decode(errors="replace"), a, c
        except subprocess.TimeoutExpired:
            return None, "", a, c
    try:
        with ThreadPoolExecutor(procs) as ex:
            for rc, out, a, c in ex.map(one, range(procs)):
                m = re.findall(r"cov: (\d+) ft: (\d+)", out)
                if m:
                    r.notes["edge_coverage_" + os.path.basename(c)] = "%s edges, %s features" % m[-1]
                for m in re.finditer(r"^EVENTS (.*)$", out, re.M):
                    for k, v in json.loads(m.group(1)).items():
                        r.event("fuzz_" + k, v)
                        if k == "inputs":
                            r.evals += v
                for f in os.listdir(c):
                    r.sigs.add(hashlib.sha1(open(os.path.join(c, f), "rb").read()).hexdigest()[:16])
                if rc == 0:
                    continue
                if rc is None:
                    r.inconclusive.append("libFuzzer run timed out")
                    continue
                arts = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(os.path.basename(a))]
                data = open(arts[0], "rb").read().hex() if arts else ""
                o = re.search(r"ORACLE: (.*)", out)
                if o:
                    key = "fuzz:" + o.group(1)
                elif "libFuzzer: timeout" in out:
                    key = "fuzz-hang"
                elif "out-of-memory" in out:
                    key = "fuzz-memory"
                elif "libFuzzer" in out or "Sanitizer" in out or "runtime error" in out:
                    key = "fuzz:" + vlib.crash_key(out)
                else:
                    r.inconclusive.append("libFuzzer exit %s: %s" % (rc, out[-1500:]))
                    continue
                r.violation(key, "[%s] input %s: %s" % (src, data[:200], vlib.first_line(out)),
                            {"target": src, "input": data, "output": out[-8000:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cert_seeds():
    """Inputs that reach deep into the loaders, after the target-selecting byte."""
    def f(tag, b):
        return bytes([tag << 3 | 2, len(b)]) + b
    pk = f(1, b"25519") + f(2, bytes(range(32)))
    meta = f(1, b"k") + f(2, b"v")
    subj = f(1, b"id") + f(2, b"name") + f(3, b"role") + f(4, pk) + f(5, meta)
    sig = f(1, b"s") + f(2, b"n") + f(3, pk) + f(4, b"BLAKE2s") + f(5, f(1, b"nonce") + f(2, b"2016") + f(3, b"2017")) + f(15, b"S" * 30)
    cert = b"\x08\x01" + f(2, subj)[:2] + subj + f(3, sig)[:2] + sig if len(subj) < 128 and len(sig) < 128 else b"\x08\x01"
    chain = (f(8, b"\x08\x01") + f(8, b"\x08\x02"))
    enc = b"\x50\x01" + f(11, b"ChaChaPoly_SHA256_PBKDF2") + f(12, b"salt") + b"\x68\x01" + f(15, b"D" * 40)
    return [b"\0" + cert, b"\1" + cert, b"\0" + chain, b"\1" + chain, b"\2" + enc, b"\3Noise_XX_25519_ChaChaPoly_BLAKE2s",
            b"\3NoisePSK_XXfallback+hfs_448+NewHope_AESGCM_SHA512", b"\4" + cert, b"\5" + cert, b"\x0b" + chain, b"\x17" + enc]


@check
def c07():
    r = Report("C07")
    r.rule = ("one case is a script of up to 60 calls on pools of handshakes, ciphers, hashes, keys, signers, generators, "
              "symmetric states and certificates with honest, damaged and random arguments, under ASan/UBSan or under Valgrind "
              "with every output asked to be defined; plus libFuzzer scripts; a signature is the script")
    sweep(r, "c07_api.cpp", cases((8000, 3000, 3000), (150000, 50000, 50000)))
    jobs = {"scripts": ("c07_api.cpp", (), 0, 1600, 20000), "handshakes": ("c01_conform.cpp", (), 0, 110, 1500),
            "tampering": ("c02_tamper.cpp", (), 0, 60, 800), "fallback": ("c20_fallback.cpp", (), 0, 40, 600),
            "objects": ("c10_cert.cpp", (), 0, 400, 5000), "loaders": ("c08_load.cpp", (), 0, 800, 10000),
            "codec": ("c09_pbuf.cpp", (), 256, 500, 6000), "keyfiles": ("c11_keyfile.cpp", (), 0, 24, 300),
            "dh": ("c12_keys.cpp", ("--mode", "dh"), 0, 60, 1000), "sign": ("c12_keys.cpp", ("--mode", "sign"), 0, 60, 1000),
            "hash": ("c15_hash.cpp", ("--mode", "ops"), 0, 300, 4000),
            "newhope": ("c12_keys.cpp", ("--mode", "newhope"), 0, 40, 500), "names": ("c16_names.cpp", ("--mode", "names"), 200, 200, 3000)}
    exes = build_all({k: ((v[0], "ref", "plain"), {}) for k, v in jobs.items()})
    for k, (src, args, base, q, t) in jobs.items():
        r.memcheck(exes[k], tier(q, t), args=args, label="memcheck-" + k, base=base)
    libfuzzer(r, "c07_api.cpp", tier(6000, 400000), 8, [bytes((i * 37 + j * 11) % 256 if j % 7 else j % 24 for j in range(200)) for i in range(12)],
              timeout=tier(400, 3000), extra=["-DFUZZ"])
    return r.finish(["outputs_checked", "messages_written", "messages_read", "messages_refused", "splits", "encryptions", "decryptions",
                     "shared_keys", "signatures", "certificates", "fuzz_inputs", "fuzz_messages_read", "memcheck_cases"])


@check
def c08():
    r = Report("C08")
    r.rule = ("one case is a file image (valid, damaged, swarms of tiny elements, unknown fields, noise) loaded as "
              "certificate, chain and key from an exact-size buffer, with the result, heap peak, allocations and leaks "
              "compared with an independent decoder; plus libFuzzer inputs; a signature is the image or corpus entry")
    sweep(r, "c08_load.cpp", {"ref": tier(16000, 300000)})
    libfuzzer(r, "c08_fuzz.cpp", tier(150000, 8000000), 8, cert_seeds(),
              dictionary='\n'.join('"%s"' % w for w in ("Noise_", "NoisePSK_", "XX", "IK", "fallback", "+hfs", "25519", "448", "+NewHope",
                                                        "ChaChaPoly", "AESGCM", "BLAKE2s", "BLAKE2b", "SHA256", "SHA512", "_PBKDF2")) + "\n",
              timeout=tier(400, 3000))
    return r.finish(["certificate_loaded", "certificate_refused", "chain_loaded", "chain_refused", "key_refused", "saved_again",
                     "null_arguments_refused", "fuzz_inputs", "fuzz_certificates_loaded", "fuzz_chains_loaded", "fuzz_names_parsed"])


@check
def c25():
    r = Report("C25")
    r.rule = ("one case saves a random certificate, chain or key to a scratch file and loads it, then again with each file "
              "operation failing in turn, full devices, missing and oversized files, hostile contents and pipes; a "
              "signature is the object's encoding")
    sweep(r, "c08_load.cpp", {"ref": tier(1600, 30000)},
          extra=["-DFAULTS"] + ["-Wl,--wrap=" + x for x in ("fopen", "fread", "fwrite", "fclose", "fseek", "ftell")], tag="-faults")
    return r.finish(["files_saved", "files_loaded", "full_device_reported", "missing_reported", "overlong_files_refused",
                     "longest_files", "hostile_files", "overwrites", "pipes_loaded"])


RAND_WRAP = ["-Wl,--wrap=" + x for x in ("open", "open64", "read", "close", "getrandom", "getentropy")]


@check
def c17():
    r = Report("C17")
    r.rule = ("one case drives generators, key generation and handshakes on a controlled entropy source: request sequences "
              "across reseeds, single entropy bits flipped, states inspected after requests, padding, failing and "
              "interrupted entropy reads; a signature is the requests, key kind or fault with its seed")
    exes = build_all({b: (("c17_rand.cpp", b, "asan"), dict(extra=["-DSODIUM=%d" % (b == "sodium")] + RAND_WRAP)) for b in BACKENDS})
    for b, n in cases((2800, 1000, 1000), (60000, 20000, 20000)).items():
        r.run_shards(exes[b], n, label=b)
    return r.finish(["requests", "bytes_generated", "reseeds", "entropy_bits_flipped", "states_inspected", "paddings", "requests_filled",
                     "keys_generated", "interrupted_reads"])


@check
def c18():
    r = Report("C18")
    r.rule = ("one case is a handshake (completed, stopped, failed, fallen back) with transport, a key object given a secret, "
              "used and cleared, a cipher, hash or generator, or a private key file, with every freed block, cleared object "
              "and the stack searched for the secrets involved; a signature is the protocol or object and its course")
    wr = ["-Wl,--wrap=" + x for x in ("free", "malloc", "calloc", "realloc", "open", "open64", "read", "close")]
    exes = build_all({b: (("c18_wipe.cpp", b, "dbg"), dict(extra=["-DSODIUM=%d" % (b == "sodium")] + wr)) for b in BACKENDS})
    for b, n in cases((6400, 2400, 2400), (80000, 30000, 30000)).items():
        r.run_shards(exes[b], n, label=b)
    return r.finish(["handshakes", "splits", "failed_handshakes", "messages_cleared", "blocks_freed", "cleared_objects_compared", "secrets_searched_for",
                     "loads", "loads_refused", "stacks_judged"])


@check
def c21():
    r = Report("C21")
    r.rule = ("one case is 4 to 6 threads working at once on objects of their own, on const-shared keys and certificates and "
              "on the two directions of a split session under ThreadSanitizer, in many short-lived processes whose first "
              "case meets an uninitialised library; all results are compared with the same work done alone afterwards; a "
              "signature is the work done and its seeds")
    env = {"TSAN_OPTIONS": vlib.SAN_ENV["TSAN_OPTIONS"] + ":ignore_noninstrumented_modules=1"}
    # unoptimised too: a compiler may keep in registers what another one shares between the threads
    slow = dict(lib_flags=("-O0",), lib_tag="-O0")
    exes = build_all({"ref": (("c21_threads.cpp", "ref", "tsan"), {}), "unoptimised": (("c21_threads.cpp", "ref", "tsan"), slow),
                      "sodium": (("c21_threads.cpp", "sodium", "tsan"), slow), "openssl": (("c21_threads.cpp", "openssl", "tsan"), slow)})
    for b, n in {"ref": tier(400, 9000), "unoptimised": tier(300, 3000), "sodium": tier(240, 5000), "openssl": tier(240, 5000)}.items():
        r.run_shards(exes[b], n, shards=tier(24, 250), env=env, label=b)
    return r.finish(["concurrent_inits", "results_compared", "compared_handshake", "untouched_starts"] +
                    ["compared_" + k for k in ("shared", "hash", "cipher", "newhope", "rand", "names", "object", "files", "keys",
                                               "symmetric", "codec", "fallback", "api", "save")])


@check
def c19():
    r = Report("C19")
    r.rule = ("one case is a scenario (constructors and use of every object, handshakes, fallback, building, reading and "
              "saving certificates, chains and keys, arrays) with every allocation failing in turn, once with a retry, once "
              "abandoned, once with all later ones failing; a signature is the scenario, its allocations and its result")
    wr = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "EVP_CIPHER_CTX_new", "EVP_CIPHER_CTX_free")]
    sweep(r, "c19_oom.cpp", cases((1400, 500, 500), (30000, 10000, 10000)), extra=wr)
    return r.finish(["allocations_failed", "no_memory_reported", "leak_checks", "same_result_after_fault", "splits",
                     "objects_compared", "loaded", "keys_loaded", "keys_saved", "runs_abandon", "runs_persist"])


@check
def c26():
    r = Report("C26")
    r.rule = ("one case performs the same work twice from the same process state with other secrets (keys, payloads, psk, "
              "passphrases, place of a forgery) and compares every basic block, load and store address, divisor, allocation "
              "and comparison length; or once under Valgrind with the secrets marked undefined; a signature is the work and its secrets")
    wr = ["-Wl,--wrap=" + x for x in ("memcpy", "memmove", "memset", "memcmp", "bcmp", "strcmp", "strncmp", "malloc", "calloc",
                                      "realloc", "free")]
    jobs = {b: (("c26_trace.cpp", b, "trace"), dict(extra=wr)) for b in BACKENDS + tuple(ALT)}
    jobs["taint"] = (("c26_taint.cpp", "ref", "plain"), dict(lib_flags=("-DNDEBUG",), lib_tag="-ndebug"))
    exes = build_all(jobs)
    for b, n in cases((5600, 2400, 2400), (60000, 30000, 30000), (600, 10000)).items():
        r.run_shards(exes[b], n, label=b)
    log = os.path.join(vlib.BUILD, "run", "c26vg-%d-" % os.getpid())
    r.run_shards(exes["taint"], tier(480, 6000), args=("--vglog", log), label="taint",
                 wrapper=("valgrind", "--error-limit=no", "--leak-check=no", "--log-file=%s%%p" % log))
    for f in glob.glob(log + "*"):
        os.unlink(f)
    return r.finish(["equal_traces", "steps_observed", "tainted_dh", "tainted_aead", "tainted_hash", "tainted_first"] +
                    ["compared_" + k for k in ("dh", "sign", "aead", "hash", "newhope", "utils", "keygen", "handshake", "keyfile")])


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for b in BACKENDS + tuple(ALT):
            vlib.build_lib(b, "asan")
        print("setup ok")
        return 0
    prop = sys.argv[1].upper()
    try:
        return CHECKS[prop]()
    except vlib.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main())
