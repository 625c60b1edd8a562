"""python3 -m vt.setup: compiles the Java overrides, lets TLC's parser read every module and compares the overrides with the
definitions they stand for."""
import glob, os, shutil, subprocess, sys, tempfile
from . import accel, tlc


def main():
    d = tempfile.mkdtemp(prefix="vt_setup_")
    try:
        cls = tlc.classes(d)
        for f in sorted(glob.glob(os.path.join(tlc.VERIF, "spec", "*.tla"))):
            r = subprocess.run(["java", "-DTLA-Library=" + os.path.join(tlc.VERIF, "spec"), "-cp",
                                ":".join([cls, tlc.JAR, tlc.DEPS]), "tla2sany.SANY", f],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
            if r.returncode or "Errors" in r.stdout:
                print(r.stdout[-3000:])
                sys.exit(1)
            print("ok", os.path.basename(f))
        print("%d values of the overrides agree with the definitions" % accel.compare(d, 1, 10))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
