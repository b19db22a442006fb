"""Write the fixed entries of known_findings.json from the fix commits of /repo and the properties they belong to."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "c655be4": "V05", "380c44e": "X12", "5aa1b31": "X12", "c71b374": "X12", "fea06c8": "X12", "d1254cf": "X12", "2b886e6": "X12", "28e3792": "X12",
    "85af522": "L10", "6b56b3a": "S03",
    "97ea623": "X10", "660f9d0": "X11", "68e3205": "X11", "3690071": "X11",
    "575a86f": "X09", "846094c": "X09", "08370a8": "X07", "52f32b1": "X05", "cb8078c": "X01", "5cc49a1": "S01", "5e55c60": "V04", "f24cb23": "S04", "26db645": "V03", "7b5d135": "S02",
    "fc54a84": "S03", "d47556c": "X02", "90603b3": "V05", "da33c51": "L02", "0c5f4ae": "V04", "a51231b": "V02", "adff529": "C04", "e47669e": "X08", "a384c7f": "S01", "22718f2": "S01",
    "da7fd4b": "S03", "f42afd8": "S02", "e82d863": "S02", "68d1267": "S03", "0e4efe6": "S03", "3c0f66e": "S02", "8c36abd": "S03", "112ee1d": "S04", "5ba4c23": "S02", "49dedee": "S02",
    "3eeb5cb": "S04", "c49933c": "V03", "4552568": "V01", "cccb153": "V06", "6c08997": "V05", "14a5e10": "V06", "f757ec4": "V01", "5a05afd": "V01", "5b2f0b7": "V03", "7df592e": "V03",
    "89c08b8": "V03", "fd17551": "X03", "6ee6987": "V02", "6d14780": "V02", "ca325c0": "L06", "a13ab04": "L02", "bb0e872": "X02", "442655b": "L07", "5aa2015": "L10", "8cdcac6": "L01",
    "3453af8": "V06", "c136bf2": "X01", "db78b3a": "L09", "04f35f4": "C02", "64cf602": "C01", "39a9798": "L04", "31aa8e9": "L04", "cc897a3": "X06", "f06e01f": "L06", "19be82d": "L02",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
fixed = []
for line in log:
    commit, _, subject = line.partition(" ")
    if subject.startswith("fix:"):
        fixed.append("fixed: property=%s %s %s" % (PROPS[commit], commit, "not so before: " + subject[4:].strip()))
path = os.path.join(HERE, "known_findings.json")
with open(path, encoding="utf-8") as fh:
    data = json.load(fh)
data["fixed"] = fixed
with open(path, "w", encoding="utf-8") as fh:
    json.dump(data, fh, indent=1)
    fh.write("\n")
