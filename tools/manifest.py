#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TRUST = ("Explores the real program (compiled from /repo, through its on-chain entrypoint); trusts the re-implemented account runtime, "
         "System and Associated Token programs (compared with LiteSVM by conf/), and covers only the stated alphabets, grids and depths.")
BFS = "explicit-state model checking of the real program: breadth-first enumeration of all operation sequences to a depth, with state deduplication, plus complete sweeps of parameter grids, judged against a reference model"
notes = {
 "C01": (BFS, "Escrow invariant on every reached state."),
 "C02": (BFS, "Every balance, supply and account of the ledger compared with the reference model after every transition."),
 "C03": (BFS + "; plus exhaustive single-player games", "Redemption value monotone on every transition; no profit on any single-player sequence within the bounds."),
 "C04": (BFS, "Release moment compared with the promise on every withdrawal attempt."),
 "C05": (BFS, "Every claim compared with the ghost record of what was promised, on every transition; all 256 indices."),
 "C06": (BFS, "Configuration compared before and after every transition."),
 "C07": ("bounded exhaustive enumeration of account substitutions (all single and pair replacements by a cast of forgeries) and of withheld signatures and write flags on the real program", "Every accepted variant must have exactly the legitimate effect."),
 "C08": ("explicit-state model checking of the real program from an untouched ledger, with every order of interference and initialization attempts, plus complete sweeps of mint and account contents", "Initialization outcome compared with the reference model on every transition."),
 "C09": ("bounded exhaustive enumeration of instruction data, account lists and account contents on the real program", "Crashes, aborts, out-of-account writes and effects of refused input are violations."),
 "C10": (BFS, "Logged events compared with the ledger on every transition."),
 "C11": (BFS + "; every pool and amount reached is also put to the JavaScript helpers", "Quotes of both clients compared with what the program paid on every transition."),
 "C12": (BFS + "; plus complete enumeration of the client's ways of building over boundary arguments", "Each transition is executed from the client's own instruction and decoded by the client; known findings are listed in known_findings.txt."),
 "C13": ("stateless model checking of the client's fetch helpers: every interleaving of their requests with pool operations (depth-first over all schedules, on ledgers the real program produced), and every single fault of every response", "Return values compared with the ledgers the pool went through while the helper ran."),
 "C18": (BFS + "; every distinct instruction, account, event and error code of the explored histories is put to the JavaScript client, and what it builds differently is executed", "The client's instructions compared with those the program is known to understand (or by their effect), its decoded values with the bytes the program wrote; @solana/kit is replaced by stand-ins (js/stubs)."),
 "C19": ("stateless model checking of the client's fetch helpers under a controlled scheduler: every interleaving of their requests with each other and with pool operations (depth-first over all schedules, on ledgers the real program produced), and every single fault of every response", "Resolved values compared with the ledgers the pool went through while the helper ran; @solana/kit is replaced by stand-ins (js/stubs)."),
 "C20": (BFS + "; from every state every script is run with every argument of an alphabet, undisturbed, with every act of somebody else before each of its requests, and with each request failing", "The script's whole effect on the ledger and its report compared with the program's own execution of the operation asked for; web3.js is replaced by a stand-in that talks to the real program."),
 "C21": (BFS + "; from every state the reading scripts are run, undisturbed and with each request failing", "Everything printed is compared with the ledger; web3.js is replaced by a stand-in."),
 "C22": ("exhaustive enumeration of crash points and failing steps (before every change to the disk, every byte written being one), arguments and starting folders on the real script", "Files, exit status and report compared with the key asked for; web3.js and the file system are replaced by stand-ins."),
 "C23": (BFS + "; every distinct account, event and instruction of the explored histories is put into text and read back, whole and after every damage to every part", "Values read back and the text compared with the bytes the program wrote."),
 "C24": ("exhaustive enumeration of arguments, file contents, answers of the service and failing looks at the disk on the real script", "What the service was given, exit status and report compared with the order; the Irys SDK and the file system are replaced by stand-ins."),
 "C14": (BFS + "; from every state all exits are tried", "Every operation the reference model allows must be accepted."),
 "C15": (BFS, "Every lamport balance compared with the reference model after every transition."),
 "C16": (BFS, "Amounts compared with exact wide arithmetic on every transition."),
 "C17": ("exhaustive enumeration of attack sequences (stake, donate, victim's deposit, unstake) over complete grids on the real program", "Attacker profit and depositor loss bounded on every sequence."),
}
checks = []
for p, (t, n) in sorted(notes.items()):
    checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough", "technique": t, "level": "model_checking", "level_note": n + " " + TRUST})
na = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = [{"property": i, "reason": "check under construction"} for i in na if i not in notes]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the program is reached through its own entrypoint. See DESIGN.md."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
