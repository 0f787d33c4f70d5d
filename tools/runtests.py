"""Runs the repository's tests against a scratch copy: python3 runtests.py DIR -> prints PASS or the failing stable tests."""
import json, os, subprocess as sp, sys, tempfile, shutil
import xml.etree.ElementTree as ET
d = sys.argv[1]
root = tempfile.mkdtemp(prefix="planttest_")
try:
    os.symlink(d + "/content/lib", root + "/lib")
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPATH=root)
    e.pop("VERIF_REPO", None)
    r = sp.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--rootdir=" + d,
            "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + root + "/x.xml", "test/pyswitch"],
           cwd=d, env=e, capture_output=True, text=True)
    ok = set()
    for c in ET.parse(root + "/x.xml").getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in st if t not in ok]
    print("PASS" if not bad else "FAIL %d: %s" % (len(bad), ", ".join(b.split("::")[-1] for b in bad[:6])))
finally:
    shutil.rmtree(root)
