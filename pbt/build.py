"""Rebuild geoana's extensions from /repo's working tree, as /opt/vp/build.sh does."""
import hashlib
import json
import os
import subprocess
import sys

REPO = "/repo"
STATE = "/opt/geoana-build.sha256.json"
SUFFIX = (".pyx", ".pxd", ".pxi", ".c", ".cpp", ".h", ".hpp")


def touch_changed():
    """ninja compares times only: give changed native sources a new time."""
    try:
        with open(STATE) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {}
    new = {}
    for top, _, files in os.walk(os.path.join(REPO, "geoana")):
        for f in files:
            if f.endswith(SUFFIX) or f == "meson.build":
                p = os.path.join(top, f)
                with open(p, "rb") as fh:
                    new[os.path.relpath(p, REPO)] = hashlib.sha256(fh.read()).hexdigest()
    for p in ("meson.build", "meson.options"):
        full = os.path.join(REPO, p)
        if os.path.exists(full):
            with open(full, "rb") as fh:
                new[p] = hashlib.sha256(fh.read()).hexdigest()
    for p, h in new.items():
        if old.get(p) != h:
            os.utime(os.path.join(REPO, p))
    with open(STATE, "w") as f:
        json.dump(new, f)


def ensure():
    """Build (through the editable loader's import hook) in a subprocess."""
    touch_changed()
    r = subprocess.run(
        [sys.executable, "-c",
         "import geoana, geoana.kernels; assert geoana.__file__.startswith('/repo/'), geoana.__file__;"
         "assert geoana.show_config()['compiled']"],
        cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("ERROR: geoana does not build or import")
        sys.exit(2)
