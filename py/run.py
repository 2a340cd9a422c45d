"""Runs one of the checks written in Python (called by check.py)."""
import argparse, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

ASSUMPTIONS = ["a failure counts when the same case fails again when repeated",
               "an expected effect that does not happen within 20 s does not happen"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--replay")
    ap.add_argument("--build")
    ap.add_argument("--evidence")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--bin")
    ap.add_argument("--codec")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    opts = ap.parse_args()
    opts.exe = {n: os.path.join(opts.bin, n) for n in ("pica", "pica-http")} if opts.bin else {}
    if opts.id in ("C20", "C21", "C22", "C26", "C27"):
        import http_checks as mod
    elif opts.id in ("C23", "C28"):
        import codec_checks as mod
    elif opts.id == "C32":
        import departure_checks as mod
    elif opts.id == "C31":
        import cli_checks as mod
    elif opts.id == "C30":
        import web_checks as mod
    else:
        import python_checks as mod
    return common.run_parts(opts, mod.parts(opts.id), ASSUMPTIONS)


if __name__ == "__main__":
    sys.exit(main())
