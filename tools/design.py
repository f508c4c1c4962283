"""Writes DESIGN.md from tools/design_text.md, the registry and the evidence of the last quick run:  python3 tools/design.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc.registry import P  # noqa: E402

ORACLE = {
    "C01": "A set comprehension over `dialect_table.json` (written once from the dialect XML by `mc/gen_dialect_table.py`, never from the code under test).",
    "C02": "`struct` packing of the fields in wire order; the listed error class per kind of bad input.",
    "C03": "Brute force minimum over all 155 messages (with the limit applied as a filter).",
    "C04": "Population count of the xor of two integers, independent of representation.",
    "C05": "`mc/wire.py`: a MAVLink 1 encoder written from the protocol rules (size ordered fields, X.25 checksum with the extra byte) over the XML table.",
    "C06": "`wire.segment`: leftmost-first scan using only the XML table and its own checksum.",
    "C07": "`itertools.groupby` over the labels.",
    "C08": "A list per structure and a header comparison.",
    "C09": "`wire` decodes the frame; names, types and order from the XML table.",
    "C10": "`struct.pack` of the value rounded and saturated with exact integers / `fractions`.",
    "C11": "A list cut to the window; mean and deviation by `math.fsum`; normal tail by `math.erfc`.",
    "C12": "`mc/bufmodel.py`: a list of samples per field and a bit-to-field map from the XML table.",
    "C13": "The same reference model as C12, which is never saved or loaded; the loaded model has to stay its twin.",
    "C14": "Integer counts per cluster (conservation of samples).",
    "C15": "All results reachable by merging *some* nearest pair (set of all tie resolutions); nearest cluster by `math.log`/xor counts.",
    "C16": "Counts per context in a dict, the 2x2 channel matrix inverted by hand, loss compared in closed form.",
    "C17": "The same with two sided contexts counted over the whole sequence.",
    "C18": "A deque per bit, `math.log` of the ratio, logistic confidence.",
    "C19": "The deque model of C18 with clusters (nearest-cluster labels from the real classifier, itself decided by C14/C15) and the clipping rule.",
    "C20": "As C19, with sum and forcing rules.",
    "C21": "One reference denoiser (C16) per model bit and cluster.",
    "C22": "`mc/bufmodel.py` per history: good/bad/forced bits recomputed from the samples; the inner decoder's input must equal the prediction bit by bit.",
    "C23": "C22's and C19's references run side by side, combined by the documented rule.",
    "C24": "One window of recovered buffers; recovered is decided by `wire.segment`.",
    "C25": "Two windows and the six schemes written as formulas.",
    "C26": "Recurrence of extrinsic values written out; component decoders scripted.",
    "C27": "Definitions with `fractions`/`math.fsum`; typical sets by enumeration of all sequences.",
    "C28": "Counting loops over Python ints; confusion counts from sets.",
    "C29": "The random generator is replaced by a scripted one; all its answers are enumerated and the transition row used is compared.",
    "C30": "One EM step in plain Python per iteration; scores and responsibilities from the mixture's definition.",
    "C31": "Differential: each interleaving of two objects against each object run alone; input arrays are overwritten after each call, answers are re-read at the end.",
    "C32": "`reference()`: a 15 line parser over the complete stream; whatever the cut, the deliveries must be its pieces.",
    "C33": "`minimal_table.json` and the enumerations, generated from the XML.",
    "C34": "The transmitted word; for success: the parity check matrix times the returned word.",
    "C35": "Frames computed from the field lists by the MAVLink 1 rules; for the shipped definitions the tables of C05/C33 and the shipped dialect as partner.",
    "C36": "All outcomes of the greedy assignment, recomputed from the overlap counts with every resolution of ties.",
    "C37": "Lists of what each file and the console should hold, kept per history; lines are parsed back into name, level and text.",
}


def fixes():
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("fixed: "):
            prop, commit, what = line[7:].strip().split(" ", 2)
            out.append(f"* {prop[9:]}, {commit}: {what}")
    return "\n".join(out)


def seeds():
    res = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
    out = ["| id | property | needs | breaks | first | now |", "|---|---|---|---|---|---|"]
    for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
        r = res.get(sid, {})
        out.append(f"| {sid} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {r.get('first', '-')} | {r.get('now', '-')} |")
    return "\n".join(out)


def mutants():
    p = os.path.join(HERE, "tools", "mutation_results.md")
    return open(p).read().strip() if os.path.exists(p) else ""


def main():
    text = open(os.path.join(HERE, "tools", "design_text.md")).read().rstrip("\n")
    text = text.replace("\nFIXES\n", "\n" + fixes() + "\n").replace("\nSEEDS\n", "\n" + seeds() + "\n").replace("\nMUTANTS\n", "\n" + mutants() + "\n")
    out = [text, "", "# Properties, one by one", "",
           "Generated by `tools/design.py` from `mc/registry.py`, each module's declared bounds and the counts measured by the last quick run.", ""]
    for p in P:
        ev = json.load(open(os.path.join(HERE, "evidence", p["id"] + ".json")))
        cov = ev["coverage"]
        out += [f"## {p['id']} {p['title']}", "", f"*Statement.* {p['statement']}", "",
                f"*Deciding step.* {p['technique'][0].upper() + p['technique'][1:]} (`mc/{p['id'].lower()}.py`). {p['note']}", "",
                f"*Oracle.* {ORACLE[p['id']]}", "", "*Bounds (quick).* " + "; ".join(f"{k}: {v}" for k, v in cov["bounds"].items()) + ".", "",
                f"*Quantifier and why tests cannot settle it.* {p['quant'][0].upper() + p['quant'][1:]}; {p['why']}.", ""]
        if ev["assumptions"]:
            out += ["*Assumptions.* " + "; ".join(ev["assumptions"]) + ".", ""]
        out += [f"*Cost (quick, 8 cores).* {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} executions of the real code, about {max(1, round(ev['wall_s']))} s.", ""]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out).rstrip("\n") + "\n")


if __name__ == "__main__":
    main()
