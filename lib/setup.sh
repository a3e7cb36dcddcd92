#!/bin/bash
# Build the tools and warm the dependency builds. Checks also work without it.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import driver, props
lk = driver.lock()
driver.build_tools()
driver.build_parsers()
todo = [("analysis", "warm"), ("server", "warm"), ("jvm", "warm")]
todo += sorted({(r.get("crate", p["crate"]), p["feature"]) for p in props.PROPS.values() for r in p["runs"]})
for c, f in todo:
    try:
        print(c, f, round(driver.build_harness(c, f)[2]), flush=True)
    except driver.Broken as e:
        print("build:", str(e)[-500:])
P
exit 0
