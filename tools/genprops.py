#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            observe_at=observe or ["public API"], hook_needed=None)))

T = "The three existing tests only allocate a context, attach/detach one track and write one WAV file; "

p("C01", "Generated audio does not depend on how requests are split",
  "For a fixed history of API calls placed at frame positions, the generated PCM is the same however the frames between two calls are requested (one frame at a time, in blocks of any size, in one request longer than the internal block size). Once a track is attached, every request returns exactly the number of frames asked for.",
  ["inputs", "histories", "configurations"],
  "all sequences of block sizes (including 1, sizes around the clock period and around the internal block size) x call histories x channel counts and sample rates",
  T + "they never compare two ways of requesting the same frames.",
  ["BKContext.c", "BKBuffer.c", "BKUnit.c"],
  [("carry of the time already rendered ahead", "BKContextRun/BKContextEnd"), ("buffer shift", "BKBufferRead")], ["PCM of BKContextGenerate"])
p("C02", "Reset and re-creation replay identically",
  "Output depends only on the calls made: repeating a call history on a freshly created context, or on a used context after a reset of context and tracks followed by the same set-up, gives bit-identical PCM and the same sequence of callback events. Memory contents left by earlier use never influence the sound.",
  ["histories"], "all histories (prefix run before the reset) x all replayed histories within the bound",
  T + "no test resets anything.",
  ["BKContext.c", "BKTrack.c", "BKUnit.c", "BKClock.c"],
  [("reset of buffers, clocks, dividers and units", "BKContextReset, BKTrackReset, BKClockReset")])
p("C03", "Contexts and tracks do not influence each other",
  "Two contexts used alternately in any interleaving behave exactly as if each were used alone, and tracks of one context that share an instrument or sample data behave exactly as if each had its own copy.",
  ["schedules", "histories"], "all interleavings of two bounded histories; all pairs of track histories sharing an instrument or data object",
  T + "only one context and one track exist at a time.",
  ["BKContext.c", "BKTrack.c", "BKInstrument.c", "BKData.c"],
  [("per-object state lists", "BKDataState, BKInstrumentState")])
p("C04", "Mixing is additive, order independent and channel separated",
  "The output of a context is the saturated sum of what its tracks would produce alone (up to 1 LSB rounding per track), independent of the order in which tracks are attached; a muted, silent or detached track adds nothing. Each output channel depends only on the volume and panning for that channel, for 1 to 8 channels, and master volume, note volume and panning scale a track as documented.",
  ["inputs", "configurations", "histories"], "all subsets and attachment orders of a set of tracks x channel counts x volumes and pannings",
  T + "only one track at one volume is rendered and the samples are not looked at.",
  ["BKContext.c", "BKUnit.c", "BKTrack.c", "BKBuffer.c"],
  [("per-channel pulse buffers", "BKUnitRunWaveform"), ("panning/volume product", "BKTrackUpdateUnitVolume")])
p("C05", "Every waveform is rendered with the right shape, pitch and level",
  "For every waveform, duty cycle, note, pitch offset, volume, panning, channel count and sample rate, the PCM equals the band-limited, high-pass filtered staircase of that waveform with the phase length given by the note and sample rate. A change of waveform, duty cycle, note, pitch, volume, phase or noise wrap takes effect at the next step without disturbing the rest of the timing.",
  ["inputs", "histories", "configurations"], "all waveforms x duty cycles x notes x rates x change sequences within the bound",
  T + "the one rendered sawtooth is never compared with anything.",
  ["BKUnit.c", "BKTrack.c", "BKTone.c", "BKBuffer.c"],
  [("phase tables and run functions", "BKUnitRunWaveform*"), ("note to period", "BKTrackUpdateUnitNote")])
p("C06", "Band-limited buffer: exact superposition, decay to silence, saturation",
  "Adding a pulse of height h at any fractional time changes the output level by h in total and only within the kernel width around that time; pulses superpose, silence stays silence and a constant level decays monotonically to zero. Output samples saturate at the 16-bit limits and never wrap around, and reading in any portions gives the same samples.",
  ["inputs", "histories"], "all fractional times x kernels x pulse heights x read portion sequences",
  T + "no sample value is checked.",
  ["BKBuffer.c", "BKBuffer.h"],
  [("kernel tables", "BKBufferStepPhases*"), ("accumulate/high pass/clamp", "BKBufferRead")])
p("C07", "Clocks and dividers fire exactly on schedule",
  "A clock attached to a context fires its callback at its attach time and then exactly once per period, in attachment order for equal times, and a divider fires on every n-th tick, for every combination of periods, dividers, attach, detach, reset and period changes made between requests or from callbacks. Replaying any history gives the tick times of a simple event-list scheduler.",
  ["histories", "schedules"], "all histories of attach/detach/reset/period/generate operations up to the bound, including operations issued from inside callbacks",
  T + "no test attaches a clock or a divider.",
  ["BKClock.c", "BKContext.c"],
  [("next tick search and advance", "BKClocksAdvance"), ("divider counters", "BKDividerTick")])
p("C08", "Generating to a time produces exactly that much audio and terminates",
  "Generating up to a time delivers exactly the frames between the current position and that time through the callback, in order and with the same samples as direct generation, for every start position, target and set-up of clocks with positive periods, and always terminates. A callback error stops generation and is reported.",
  ["inputs", "histories"], "all sequences of target times (fractional, equal, past, beyond the block size) x clock set-ups x callback results",
  T + "this entry point is never called.",
  ["BKContext.c"], [("loop over partial ends", "BKContextGenerateToTime")])
p("C09", "Objects can be attached, detached and disposed in any order",
  "Contexts, tracks, clocks, dividers, instruments and data may be attached, detached, re-attached and disposed in every order: no call touches freed memory, no memory is leaked, disposing twice is harmless, attaching twice is refused without changing anything, and the remaining objects keep working (a track re-attached to another context plays there).",
  ["histories"], "all histories over up to two contexts, two tracks, clocks, dividers, an instrument and sample data up to the bound",
  T + "they attach and detach one track once.",
  ["BKObject.c", "BKContext.c", "BKTrack.c", "BKClock.c", "BKInstrument.c", "BKData.c", "BKUnit.c"],
  [("intrusive doubly linked lists", "BKUnitAttach/Detach, BKClockAttach/Detach, BKDividerAttachToGroup, BKDataStateSetData, BKInstrumentStateSetInstrument")])
p("C10", "Notes start, change, release and end as documented",
  "A note value starts (or, while one is sounding, retargets) the tone; a release lets a releasing instrument or sustained sample play out and otherwise silences the track; a mute silences it at once; values are clamped to the note range and reading the note back tells whether a note is sounding. This holds after every history of notes, releases, mutes, instrument and waveform changes.",
  ["histories"], "all histories of note/release/mute/instrument/waveform/generate operations up to the bound",
  T + "a single note is set once.",
  ["BKTrack.c", "BKInstrument.c"], [("note state machine", "BKTrackSetNote")])
p("C11", "Instrument sequences step, sustain, release and end as documented",
  "A simple sequence yields one value per instrument step: it plays to the sustain end, repeats the sustain range while the note is held, continues after the range when released, and holds its last value; the values are applied to volume, panning, pitch and duty cycle, and a released note falls silent when all sequences of its instrument have ended. Empty or out-of-range sequences and sustain ranges are refused or limited as documented, and replacing or removing a sequence mutes the notes using it and is safe.",
  ["inputs", "histories"], "all sequences up to the bounded length x all sustain ranges (negative, reversed, out of range) x all attack/release/step histories",
  T + "no instrument is ever created.",
  ["BKSequence.c", "BKInstrument.c", "BKTrack.c"], [("step functions", "BKSequenceStep*"), ("phase handling", "BKInstrumentState*")])
p("C12", "Envelopes interpolate linearly and hit every point",
  "An envelope moves linearly from its current value to each point's value in exactly the point's number of steps, jumps for zero steps, repeats the sustain range while the note is held and proceeds from the current value to the release points when released. Attack/decay/sustain/release set-up equals the corresponding envelope.",
  ["inputs", "histories"], "all envelopes up to the bounded number of points over a small step/value alphabet x sustain ranges x attack/release/step histories",
  T + "no envelope is ever created.",
  ["BKSequence.c", "BKInstrument.c", "BKInterpolation.c"], [("envelope stepping", "BKSequence.c envelope functions")])
p("C13", "Slides and intervals are linear, bounded and end exactly",
  "A slide reaches its target exactly after the given number of steps, moves monotonically, stays between start and target and deviates from the ideal line by less than one unit; with zero steps it jumps, and halting freezes it or jumps to the target. A periodic interval runs as a triangle with period four times the steps within plus/minus its delta, and changing delta or steps keeps its phase position.",
  ["inputs", "histories"], "all (maximum, start, target, steps) tuples in a covering grid and all retargeting histories up to the bound",
  T + "no slide is ever used.",
  ["BKInterpolation.c", "BKInterpolation.h"], [("fixed point stepping", "BKSlideState*, BKIntervalState*")])
p("C14", "Track effects slide, portamento, tremolo and vibrato follow their parameters",
  "Setting an effect and reading it back returns the same parameters. Volume and panning slides and portamento move to each newly set value in the given number of effect ticks, tremolo lowers the volume and vibrato moves the pitch periodically with the given depth and number of steps, and clearing an effect restores the plain value.",
  ["inputs", "histories"], "all histories of effect/value/note/generate operations over a small argument alphabet up to the bound",
  T + "no effect is ever set.",
  ["BKTrack.c", "BKInterpolation.c"], [("effect states", "BKTrackSetEffect, BKTrackUpdate*")])
p("C15", "Attributes are clamped, readable and independent; bad input changes nothing",
  "Setting any attribute to any 32-bit value stores the documented clamped value, reading it returns what was stored, other attributes keep their values, and unknown attributes or invalid values are refused with an error code and without any change (a waveform or sample pointer which cannot be used unsets the current one). This holds for contexts, tracks, plain units, sample data and dividers, through both the generic and the typed entry points.",
  ["inputs", "histories"], "all attributes x a boundary set of 32-bit values x pairs of successive sets",
  T + "only channel count and sample rate clamping is tested.",
  ["BKTrack.c", "BKUnit.c", "BKContext.c", "BKData.c", "BKObject.c"], [("attribute switch tables", "BK*SetAttr/GetAttr/SetPtr/GetPtr")])
p("C16", "Arpeggio cycles through its notes at the arpeggio rate",
  "With an arpeggio of up to eight notes the pitch offset changes cyclically every arpeggio-divider ticks, restarts with the first entry on a new note, is added to the note, pitch and instrument pitch, and clearing it restores the plain note. Setting a different arpeggio length while playing keeps the position if it still fits and otherwise restarts.",
  ["inputs", "histories"], "all arpeggio lengths and a small value alphabet x dividers x change histories",
  T + "no arpeggio is ever set.",
  ["BKTrack.c"], [("arpeggio divider", "BKTrackTick")])
p("C17", "Sample playback visits exactly the frames its range and repeat mode allow",
  "Sample playback reads only frames inside the selected range, forwards or backwards, at the speed given by note and pitch; while held it repeats the sustain range, after release it runs to the end, and then stops, repeats or turns around as the repeat mode or the sample callback says. This holds for all ranges, including negative, reversed, empty and out-of-range values, and mono or matching multi-channel data.",
  ["inputs", "histories"], "all ranges and sustain ranges of small samples x repeat modes x pitches x histories of range/phase/release/mute changes",
  T + "no sample is ever loaded.",
  ["BKUnit.c", "BKTrack.c"], [("range bookkeeping", "BKUnitUpdateSampleRange"), ("wrap and repeat", "BKUnitResetSample, BKUnitRunSample")])
p("C18", "Sample data import, conversion and normalisation are exact",
  "Importing frames of any supported bit depth, signedness and byte order yields for every input value the corresponding 16-bit frame, for all channel counts and frame counts; unsupported parameters and too short data are refused and leave the data unchanged. Normalising scales the loudest frame to full scale and bit reduction yields the evenly spaced levels of the target bit depth.",
  ["inputs"], "all values of each bit format (exhaustively, all bytes/words), all channel and frame counts up to the bound, all error parameters",
  T + "no data object is ever created.",
  ["BKData.c"], [("bit unpacking", "BKDataSetData"), ("conversion", "BKDataConvert, BKDataNormalize")])
p("C19", "Changing sample data updates or detaches every track that uses it",
  "When sample data or a custom waveform is replaced, reloaded, normalised, converted or disposed, every track using it immediately plays the new content or, if the new content is unusable or the data is gone, is detached from it and falls silent; no track ever reads stale or freed frames and other users of the data are unaffected.",
  ["histories"], "all histories of load/replace/convert/assign/unassign/dispose/generate operations over two tracks and two data objects up to the bound",
  T + "no data object is ever created.",
  ["BKData.c", "BKUnit.c"], [("state list notification", "BKDataResetStates, BKUnitSampleDataStateCallback")])
p("C20", "Copies of data and instruments equal the original and are independent",
  "A copy of a data object or instrument has the same observable content and sounds the same as the original; afterwards changing or disposing either one never affects the other, and disposing both releases all memory.",
  ["histories"], "all instruments/data over a small alphabet x all mutation/dispose histories of original and copy up to the bound",
  T + "no copy is ever made.",
  ["BKData.c", "BKInstrument.c", "BKSequence.c"], [("deep copy", "BKDataInitCopy, BKInstrumentInitCopy, BKSequenceCopy")])
p("C21", "Note-to-period conversion is accurate and monotonic over its whole range",
  "For every fixed-point note and every sample rate the phase period falls monotonically with the note, halves per octave, deviates from equal temperament (A = 440 Hz) by at most the table resolution, and clamps outside the range; the sample speed lookup likewise doubles per octave and is exactly 1 at the middle C of the table.",
  ["inputs"], "every semitone fraction step x sample rates (thorough: every fixed-point note value)",
  T + "one note at one rate is used.",
  ["BKTone.c"], [("tables and interpolation", "BKTonePeriodLookup, BKLog2PeriodLookup")])
p("C22", "Time arithmetic is exact",
  "Building a time from frames and fraction, adding, subtracting and comparing times, and converting from seconds agree with exact integer arithmetic for every representable time.",
  ["inputs"], "all pairs/triples from a boundary set of frames and fractions including the extremes of the 32-bit ranges",
  T + "no time function is called.",
  ["BKTime.h", "BKContext.h"], [("inline 64-bit fixed point", "BKTime*")])
p("C23", "WAV files written are valid and contain exactly the appended frames",
  "Whatever the sequence of append calls, frame counts, channel counts, sample rates, bit depths and initial file offset, the finished file is a valid RIFF/WAVE whose header matches its content, and reading it back yields exactly the frames appended (reduced to 8 bits if so requested). A write error is reported and never crashes.",
  ["histories", "inputs", "fault_sequences"], "all sequences of append/terminate/dispose operations up to the bound x formats x offsets x failing write/seek positions",
  T + "one file with one format is written and its header read back.",
  ["BKWaveFileWriter.c", "BKWaveFileReader.c"], [("header patching", "BKWaveFileWriterTerminate")])
p("C24", "Reading a WAV file never misbehaves, whatever its bytes",
  "For any byte sequence presented as a WAV file, truncated anywhere, with any header fields changed or chunks inserted, reading either fails with an error code or delivers frames consistent with header and data; it never writes outside the caller's buffer, crashes, hangs or leaks, and a failed load leaves the data object usable. Valid files are decoded exactly, including extra chunks, padding bytes and extended format chunks.",
  ["inputs", "fault_sequences"], "all truncations x all single-field (thorough: pairs) mutations with boundary values x chunk layouts of small valid files",
  T + "only a file it has just written itself is read.",
  ["BKWaveFileReader.c", "BKData.c"], [("header parsing", "BKWaveFileReaderReadHeader"), ("frame conversion", "BKWaveFileReaderReadFrames")])
p("C25", "A failed allocation is reported and leaves everything consistent",
  "If any memory allocation fails during any operation, the operation returns an error (or succeeds unaffected), nothing is leaked or corrupted, existing objects keep working and can be disposed, and repeating the operation succeeds.",
  ["fault_sequences"], "every operation that allocates x every position of the failing allocation x short follow-up histories",
  T + "allocation never fails in the tests.",
  ["BKObject.c", "BKContext.c", "BKData.c", "BKInstrument.c", "BKSequence.c", "BKWaveFileReader.c", "BKWaveFileWriter.c", "BKTrack.c", "BKClock.c"],
  [("error returns after malloc", "all constructors")])
p("C26", "Every status value has a printable name",
  "Asking for the name of any status value, valid or not, returns a valid string without touching memory out of bounds; each defined error has its own distinct name.",
  ["inputs"], "all 2^32 status values",
  T + "the function is not tested.",
  ["BKBase.c"], [("name table lookup", "BKStatusGetName")])
p("C27", "Objects are created, dispatched to and disposed as their class says",
  "For every class, of the library or of the caller, and every history of operations: an object is created emptied, with its class and only the flags of how it was created, and only if the size given matches its class; a refused or failed creation returns an allocation error, touches no memory and hands out no object. Setting and getting attributes and pointers reaches exactly the function of the object's class with the arguments unchanged and returns its result, or is refused as an invalid state if the class has no such function or there is no object. Disposing calls the dispose function of the class once on the intact object, empties the object, frees exactly what was allocated, and does nothing for an object which is not initialized, already disposed or missing. Private flags, content and extra bytes belong to the caller in between.",
  ["histories", "configurations"], "all histories of create/write/get/set/dispose operations up to the bound on several objects x classes of different size and functions x memory of the caller or allocated with extra bytes x failing allocations",
  T + "only one allocated context is disposed.",
  ["BKObject.c", "BKObject.h"],
  [("size check and emptying", "BKObjectInit, BKObjectAlloc"), ("dispatch", "BKSetAttr, BKGetAttr, BKSetPtr, BKGetPtr"), ("disposal", "BKDispose")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
