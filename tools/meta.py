#!/usr/bin/env python3-vt
"""Generates properties.jsonl and MANIFEST.json from the list below and the registered goals."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=['src/' + f for f in files], mech=mech, observe=observe, note=note, state=state))


SMOKE = 'The three test programs drive a handful of fixed calls and print or compare nothing about this; '

P('C01', 'Sample buffer access stays in bounds and reports the exact count',
  'Adding pulses or frames at any time inside the buffer, ending it at any time and reading any number of samples into an array with any interlace never touches memory outside the buffer and the requested output slots. A read returns exactly the smaller of the requested and the available number of frames, writes exactly that many slots, and keeps the remaining frames in order.',
  ['inputs', 'histories'], 'all buffer contents, fill levels, pulse times and amplitudes, request sizes and interlace factors 0..8 (0 read as 1)',
  SMOKE + 'they use one chunk size and one channel count.', ['BKBuffer.c', 'BKBuffer.h'],
  [('bounds checks on time', 'BKBufferAddPulse, BKBufferAddFrame, BKBufferEnd'), ('min(size, available) and shift of pending frames', 'BKBufferRead, BKBufferShift')],
  ['return value and output array of a buffer read', 'buffer fill level'],
  'Proof for all inputs over BKBufferRead/AddPulse/AddFrame/End/Shift/Size; loops by inductive invariants; memory model of irv trusted.')
P('C02', 'Output samples are the saturated running sum of the superposed pulses',
  'Every output sample is the high-pass filtered running sum of everything added to its frame, clamped to the 16 bit range and never wrapped around. The filter state after a read depends only on the frames consumed, so the samples do not depend on how reading is split into chunks.',
  ['inputs', 'histories'], 'all frame contents including overload, all accumulator values, all request sizes',
  SMOKE + 'no test overloads a channel or reads in differing chunk sizes.', ['BKBuffer.c'],
  [('accumulate, clamp, leak', 'BKBufferRead'), ('accumulator kept in the buffer', 'BKBuffer.accum')],
  ['output array of a buffer read', 'subsequent reads'],
  'Proof for all inputs: recurrence contract with ghost sequence over BKBufferRead for interlace 0..8.')
P('C03', 'Pulses superpose linearly with the band-limited kernel',
  'Adding a pulse adds its amplitude times the kernel row selected by the fractional time to exactly the frames the kernel covers, independent of what is there already; adding a frame changes exactly one frame. A new or cleared buffer is silent and its kernel is kept.',
  ['inputs', 'histories'], 'all times in the buffer, all amplitudes, all prior buffer contents, all 32 kernel phases',
  SMOKE + 'output amplitudes are never compared.', ['BKBuffer.c', 'BKBuffer.h'],
  [('kernel row by fractional time', 'BKBufferAddPulse'), ('initial state', 'BKBufferInit, BKBufferClear')],
  ['buffer frames'], 'Proof for all inputs over BKBufferAddPulse/AddFrame/Init/Clear/Dispose.')
P('C04', 'Generating frames delivers exactly the requested samples, chunked or not',
  'Generating, reading or generating up to a time point delivers exactly the requested number of frames, interleaved for all channels and gap-free across the internal chunks, and advances the time accordingly; output memory outside the requested frames is not touched. Errors of the underlying run are reported and stop the generation.',
  ['inputs', 'configurations', 'histories'], 'all request sizes, all numbers of channels 1..8, all fill levels, all time points',
  SMOKE + 'one channel count and a few sizes below the internal chunk size are used.', ['BKContext.c'],
  [('chunk loop', 'BKContextGenerate, BKContextGenerateToTime'), ('read of every channel with interlace', 'BKContextRead')],
  ['output array and return value of generate', 'current time'],
  'Proof for all request sizes; run/end/read of the inner layer used by their own contracts.')
P('C05', 'Units and clocks are advanced in time order up to the requested end',
  'Running a context to an end time advances every unit exactly to that time in steps that never go backwards, and every due clock tick happens exactly once, before units are run past it. After the run no clock is overdue and the elapsed time is added exactly to the current time, with or without attached clocks.',
  ['inputs', 'configurations', 'histories'], 'any number of units and clocks, any clock phases, any start and end time',
  SMOKE + 'one clock and few units are used.', ['BKContext.c', 'BKClock.c'],
  [('tick clocks at the smallest next time, run units in between', 'BKContextRun, BKContextRunUnits, BKClocksTick, BKClocksAdvance')],
  ['run callbacks of units', 'tick callbacks', 'current time'],
  'Proof for lists of any length by loop invariants; unit run functions are arbitrary callbacks.')
P('C06', 'Context set-up, failure and disposal leave nothing dangling',
  'Initialising a context accepts exactly the supported channel counts and sample rates and sets every channel up silent; when any allocation fails nothing leaks and the context stays disposable. Disposing a context detaches every unit, clock and divider, so none of them refers to it afterwards.',
  ['inputs', 'fault_sequences', 'configurations'], 'all channel counts, all allocation failures, any number of attached units, clocks and dividers',
  SMOKE + 'allocation failure and disposal order are never exercised.', ['BKContext.c', 'BKObject.c'],
  [('init with clean-up', 'BKContextInit, BKContextAlloc, BKContextInitGeneric'), ('detach on disposal', 'BKContextDispose')],
  ['return codes', 'attached objects after disposal'],
  'Proof; malloc may fail at every call.')
P('C07', 'Attaching and detaching units, tracks and dividers keeps the lists well formed',
  'Attaching a unit, track or divider links it exactly once at the end of the list, attaching an attached one is refused without any change, and detaching unlinks exactly that one and keeps the order of the others. Changes made by detached objects do not reach the context.',
  ['histories', 'configurations'], 'all list shapes (head, middle, tail, only element) and attach states',
  SMOKE + 'a single unit or track is attached at the end.', ['BKContext.c', 'BKUnit.c', 'BKTrack.c'],
  [('doubly linked unit list', 'BKUnitAttach, BKUnitDetach'), ('divider groups by type', 'BKContextAttachDivider, BKTrackAttachDivider'), ('track group', 'BKTrackAttach, BKTrackDetach')],
  ['return codes', 'list links'], 'Proof for every neighbourhood of the changed node.')
P('C08', 'Clock and divider lists stay well formed',
  'Attaching a clock before a given clock, first or last and attaching a divider links it at exactly that place and resets it; refused requests change nothing. Detaching or disposing unlinks exactly that object, and disposing a clock detaches all its dividers and terminates, however many there are.',
  ['histories', 'configurations'], 'all list shapes and attach states, any number of dividers',
  SMOKE + 'lists with more than one clock or divider and disposal with attached dividers are not exercised.', ['BKClock.c'],
  [('doubly linked lists', 'BKClockAttach, BKClockDetach, BKDividerAttachToGroup, BKDividerDetach'), ('disposal', 'BKClockDispose, BKDividerDispose')],
  ['list links', 'return codes'], 'Proof for every neighbourhood of the changed node; dispose and reset for lists of any length.')
P('C09', 'Dividers fire exactly every N ticks',
  'A divider calls back on the first tick after a reset and then exactly once every N ticks, never more than once per tick, independent of the other dividers in the list. A callback may change N, which takes effect for the next period; values below one count as one.',
  ['inputs', 'histories'], 'lists of any length, all division and counter values, all callbacks',
  SMOKE + 'no test counts ticks.', ['BKClock.c'], [('count down and reload', 'BKDividerTick')], ['divider callbacks'],
  'Proof by loop invariant over a list of any length.')
P('C10', 'Clocks tick at exact multiples of their period',
  'The n-th tick of a clock happens exactly n periods after its start without accumulating rounding errors, and a clock time never goes backwards. A callback that changes the period takes effect from that tick on.',
  ['inputs', 'histories'], 'all periods, tick counts and sample rates', SMOKE + 'no tick time is compared.', ['BKClock.c', 'BKTime.h'],
  [('exact fixed-point tick time', 'BKClockTick, BKClockAdvance, BKClockInit')], ['tick callbacks and times'],
  'Proof for all times and periods; periods up to the range of the time type.')
P('C11', 'Time values are exact: sum of samples and fraction, ordering and arithmetic',
  'A time made of a sample count and a fraction is exactly their sum for every count, splitting it gives back both parts, and adding and subtracting are exact inverses. All comparisons agree with the order of the represented numbers, including large values and negative differences.',
  ['inputs'], 'all sample counts, fractions and times', SMOKE + 'times above a few seconds are never used.', ['BKTime.h'],
  [('fixed-point time', 'BKTimeMake, BKTimeAdd, BKTimeSub, BKTimeIs...')], ['results of the time functions'],
  'Proof over the inline header functions through generated wrappers.')

EXTRA = os.path.join(HERE, 'tools', 'props2.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

UNBUILT = {}


def main():
    import contracts
    have = {}
    for g in contracts.load():
        have.setdefault(g.prop, []).append(g)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['quant']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            if p['state']:
                d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo. Every check regenerates its obligations from the LLVM IR of /repo/src. See DESIGN.md.'}
    for p in PROPS:
        if p['id'] in have:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                                'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                                'technique': 'contract-based deductive verification of the LLVM IR of the real code (VC generation with inductive loop invariants, z3/cvc5), counterexamples replayed natively',
                                'level': 'proof', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': UNBUILT.get(p['id'], 'the contracts of these functions are not written yet; no check claims it')})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
    for k in have:
        assert k in [p['id'] for p in PROPS], k
    print(len(PROPS), 'properties,', len(m['checks']), 'claimed')


main()
