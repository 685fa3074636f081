"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and NOTES."""
import json, glob, os
NOTES = {
 'c06a': 'missed at first: h_c_last and the switch points at atomics of the counters were added',
 'c11a': 'missed at first: h_detach (responses awaited after detaching, several at once) was added',
 'c25a': 'missed at first: channels got their own histories (h_chan, h_dchan)',
 'c02b': 'missed at first: nothing used a mailbox from within a handler; h_nest was added',
 'c08b': 'missed at first: one receive per mailbox only; h_recv was added',
 'c18b': 'missed at first: 1842/1843 (the future is looked at before a message is taken) were added',
 'c06c': 'missed at first: the race was explored (h_c_last), but the assertion counted for C08 only',
 'c06d': 'missed at first: needs two preemptions; h_c_respur was added and the cheap thread harnesses went to two preemptions',
 'c05d': 'missed at first: no thread harness looked at the number of messages; h_c_cap was added',
 'c01c': 'missed at first: one thread per mailbox only; h_c_same was added',
}
try: NOTES.update(json.load(open(os.path.join(os.path.dirname(__file__), 'seed_notes.json'))))
except FileNotFoundError: pass
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} (needs {m['needs']}) | {NOTES.get(i, '')} |")
