import json, os, subprocess, sys, time
M, OUT, start, stride, workers = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
MAP = [
 ("common/slip", "C01 C22 C02"),
 ("tunnelproxy/tunnelproxyremoteconnection", "C17 C19 C25"), ("tunnelproxy/tunnelproxysocketserver", "C18 C19"), ("tunnelproxysocket.", "C18 C19"),
 ("libnymea-remoteproxyclient/", "C17 C18 C19"),
 ("tunnelproxyserver.", "C04 C07 C06 C03 C13 C08 C22 C05 C02 C14 C11 C15"), ("tunnelproxyserverconnection", "C13 C06 C22 C07 C02"), ("tunnelproxyclientconnection", "C13 C06 C07 C02 C05"),
 ("tunnelproxyclient.", "C08 C12 C09 C22 C02 C11 C13 C04"), ("transportclient", "C08 C13 C11 C12 C09 C02 C07"),
 ("jsonrpcserver", "C08 C09 C10 C23 C12 C11 C07 C15 C21"), ("server/transportinterface", "C11 C13 C14 C16 C15"),
 ("jsonrpc/jsonreply", "C23 C08"), ("jsonrpc/", "C10 C09 C04 C07 C08 C06"),
 ("tcpsocketserver", "C21 C02 C07 C15 C11 C14 C16 C13"), ("websocketserver", "C14 C02 C21 C15 C11 C12 C16 C13 C07"), ("unixsocketserver", "C15 C02 C14 C11 C16 C07 C13"),
 ("monitorserver", "C13 C15 C20"), ("engine", "C15 C16 C24 C13 C11 C08"), ("proxyconfiguration", "C16 C24"),
 ("monitor/", "C20"), ("tunnelclient/", "C25"), ("server/", "C24"),
]
done = set()
for l in open(OUT):
    done.add(json.loads(l)["n"])
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VRP_SHRINK="0")
for i, l in enumerate(open(M)):
    m = json.loads(l)
    if i % stride != start or m["n"] in done:
        continue
    p = "/repo/" + m["file"]
    lines = open(p).read().split("\n")
    assert lines[m["line"] - 1] == m["old"]
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))
    t0 = time.time()
    result, seen = "survived", []
    for key, checks in MAP:
        if key in m["file"]:
            break
    else:
        checks = "C24"
    for c in checks.split():
        try:
            r = subprocess.run(["bash", "/verif/check.sh", c, "--workers", workers], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
            text = r.stdout.decode(errors="replace")
            seen.append("%s:%d" % (c, r.returncode))
            if r.returncode == 3 and "build failed" in text:
                result = "nobuild"
                break
            if r.returncode == 1:
                result = "caught " + c
                break
            if r.returncode != 0:
                result = "error " + c + text[-300:]
                break
        except subprocess.TimeoutExpired:
            seen.append(c + ":timeout")
            result = "timeout " + c
            break
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    m.update(result=result, seen=seen, secs=round(time.time() - t0, 1))
    with open(OUT, "a") as o:
        o.write(json.dumps(m) + "\n")
    print(m["n"], m["file"], m["line"], m["op"], m["new"].strip()[:70], "->", result, m["secs"], flush=True)
    subprocess.run("rm -rf /verif/replays", shell=True)
