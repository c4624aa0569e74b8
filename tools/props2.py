P('C12', 'Tones map to equal tempered periods for every tone and sample rate',
  'The oscillator period of every tone, including all fractions between notes, is the equal tempered one at 440 Hz for A4, interpolated linearly between notes and rounded down in steps of 4 times the sample rate; it never rises with the tone and never overflows. The pitch factor of samples doubles with every octave, is 1 at the middle note and never falls with the tone. Tones outside the note range and sample rates outside the supported range count as the nearest supported value.',
  ['inputs'], 'all 2^32 tones, all 2^32 sample rates',
  SMOKE + 'a few whole notes at one sample rate are used.', ['BKTone.c', 'BKTone.h'],
  [('table and interpolation', 'BKTonePeriodLookup, BKLog2PeriodLookup')], ['returned period'],
  'Proof for all inputs; the tables are compared with an independent computation of 97 equal tempered notes.')
P('C13', 'Slides move steadily from the start to the end value and arrive exactly',
  'A slide of any number of steps changes its value monotonically towards the end value, never overshoots it, arrives exactly when its last step is made and stays there. Setting a value jumps there, a new target continues from the current value, and changing the number of steps keeps the value within the remaining way.',
  ['inputs', 'histories'], 'all start and end values, all numbers of steps, every step of the slide',
  SMOKE + 'one volume slide is played and only listened to.', ['BKInterpolation.c', 'BKInterpolation.h'],
  [('step count and delta', 'BKSlideStateSetValueAndSteps, BKSlideStateStep, BKSlideStateSetSteps')], ['value returned by the slide'],
  'Proof: representation invariant of the slide state preserved by every operation from every state satisfying it.')
P('C14', 'Tremolo and vibrato intervals swing between their bounds with the set period',
  'An interval runs through four phases of exactly the set number of steps each: to the depth, back to zero, to the negative depth and back to zero. Each phase ends exactly at its extreme, and the value never leaves the depth. Changing depth or steps keeps the phase and keeps the value inside the new depth; depth or steps of zero switch the interval off.',
  ['inputs', 'histories'], 'all deltas, all numbers of steps, all phases and every step',
  SMOKE + 'no value of an interval is compared.', ['BKInterpolation.c', 'BKInterpolation.h'],
  [('phase and turning points', 'BKIntervalStateStep, BKIntervalStateSetValues')], ['value returned by the interval'],
  'Proof: representation invariant of the interval state preserved by every operation from every state satisfying it.')
P('C25', 'Every status value has a name',
  'The name of every defined status is its own text, every other value of any kind gives the text for unknown states, and the table is never read outside.',
  ['inputs'], 'all 2^32 status values', SMOKE + 'the names of a few errors are printed at most.', ['BKBase.c'],
  [('range check before table access', 'BKStatusGetName')], ['returned string'], 'Proof for all inputs.')
P('C24', 'Objects are constructed empty, disposed once and dispatched through their class',
  'Constructing an object succeeds exactly if storage and class fit, and then every field of it is zero except its class and the flag for an initialised (and allocated) object; a refused construction changes nothing. Disposing calls the dispose function of the class exactly once while the object is intact, empties it, frees it if and only if it was allocated, and does nothing for NULL, uninitialised or already disposed objects. Attribute and pointer calls reach the function of the class exactly once with unchanged arguments and return its result; NULL objects and missing functions are reported as invalid state.',
  ['inputs', 'fault_sequences', 'configurations'], 'all 9 object types of the library, classes with any combination of missing functions, all arguments, allocation failure',
  SMOKE + 'only well-formed objects are used once.', ['BKObject.c', 'BKObject.h'],
  [('construction', 'BKObjectInit, BKObjectAlloc'), ('disposal', 'BKDispose'), ('dispatch', 'BKSetAttr, BKGetAttr, BKSetPtr, BKGetPtr')],
  ['object contents', 'return codes', 'calls of class functions'], 'Proof for all inputs; class functions are arbitrary callbacks.')
P('C26', 'Waveform units produce their waveform exactly on every channel',
  'Running a unit with a square, triangle, sawtooth, sine, noise or custom waveform to an end time makes exactly one step of the waveform per period, starting at the time of the unit; every audible channel receives, for each step, a pulse which brings its level from the last one to the amplitude of the current phase scaled by the volume of that channel, at the time of that step and in order of time. All channels hear the same phases. Afterwards time, phase, noise state, wrap counter and last level of each channel are those reached by that number of steps, so that splitting a run in parts makes no difference; the custom waveform is read only inside its frames, the noise sequence restarts as set by the phase wrap.',
  ['inputs', 'histories'], 'all 6 waveforms, 1 to 8 channels, all periods, times, volumes, duty cycles, phases and wraps, any number of steps',
  SMOKE + 'a unit is only listened to.', ['BKUnit.c'],
  [('waveform loops', 'BKUnitRun'), ('waveform tables', 'squarePhases, trianglePhases, sawtoothPhases, sinePhases')],
  ['pulses passed to the buffers', 'unit time, phase and last pulse'],
  'Proof for all inputs: the buffer functions are ghost callbacks; the run is compared with a recursive definition of the waveform.')
P('C20', 'Sample playback stays in the selected ranges, restarts and ends as set',
  'Setting a range selects exactly the clamped frames of the sample, in either direction, and resets the position; a sustain range is only accepted inside the sample and clamped to it. Running a unit which plays a sample reads only frames inside the sample, gives every audible channel at each step the pulse which brings its level to the current frame scaled by its volume, and at the end of the range either repeats it, ends, or asks its callback, whose changes are clamped as if set by an attribute.',
  ['inputs', 'histories'], 'all ranges, sustain ranges, repeat modes, speeds, end times, samples of any length, any number of steps',
  SMOKE + 'samples are not compared with anything.', ['BKUnit.c'],
  [('sample loop', 'BKUnitRunSample, BKUnitSetPhase'), ('ranges', 'BKUnitSetPtr')], ['pulses passed to the buffers', 'unit attributes'],
  'Proof for all inputs, samples with 1 and 2 channels for the run, 1 to 8 channels for the ranges; the frame pointer is proved to stay inside the sample.')
P('C27', 'Unit attributes are validated, clamped and read back exactly',
  'Each attribute of a unit accepts exactly the documented values, clamps the others or refuses them with its error code and no effect; reading gives back the value set in the documented scale, also after changes which depend on each other (waveform and phases, mute and volume, duty cycle); unknown attributes are refused. Callbacks are set and removed.',
  ['inputs', 'configurations'], 'all attributes, all 2^32 values, all states of the unit, with and without a context',
  SMOKE + 'no attribute is read back.', ['BKUnit.c'],
  [('attribute dispatch', 'BKUnitSetAttr, BKUnitGetAttr, BKUnitSetPtr, BKUnitGetPtr')], ['return codes', 'values read back', 'pulses of a volume change'],
  'Proof for all inputs.')
P('C18', 'Sample data of every bit format is decoded exactly',
  'Loading raw sample data of 1, 2, 4, 8 or 16 bits, signed or unsigned, of either byte order makes one frame per channel from every complete packet, each with exactly the value of its bits scaled to the full range of frames; incomplete packets are ignored. Invalid channel counts, bit formats and sizes, and failed allocations are refused without any change to the data.',
  ['inputs', 'configurations', 'fault_sequences'], 'all data of any size below 2 GB, all bit formats and byte orders, 1, 2, 3, 4 and 8 channels, failing allocation',
  SMOKE + 'no data is loaded from raw bits.', ['BKData.c'],
  [('number of frames', 'BKDataCalculateNumFramesFromNumBits'), ('decoding loop', 'BKDataConvertFromBits'), ('exchange of frames', 'BKDataSetData')],
  ['frames', 'dimensions', 'return codes'], 'Proof for all inputs and sizes; 3 channels only for 8 and 16 bits; sanitized native runs check the contract against the compiled code.')
P('C19', 'Data objects own their frames and keep their users informed',
  'Replacing, copying or disposing the frames of a data object frees exactly the frames it owns, never those of others, and every state which uses it is told exactly once and in order; a state which cannot use the new frames is taken out and all others stay linked in order. States join and leave lists at any place. A copy has its own frames and no states. Failed requests change nothing. Attributes and sustain ranges are clamped to their documented ranges.',
  ['inputs', 'histories', 'fault_sequences'], 'state lists of any length with any mix of answers, frames of any size, all attribute values, failing allocation',
  SMOKE + 'no data object is replaced or disposed while in use.', ['BKData.c', 'BKData.h'],
  [('state list', 'BKDataStateSetData, BKDataResetStates'), ('ownership of frames', 'BKDataSetFrames, BKDataInitCopy, BKDispose'), ('attributes', 'BKDataSetAttrInt, BKDataSetPtr')],
  ['list links', 'calls of state callbacks', 'freed blocks'], 'Proof for lists of any length: the callbacks are arbitrary functions.')
P('C23', 'Normalizing scales all frames by one factor to full range',
  'Normalizing multiplies every frame of every channel by the same factor, which is the largest one for which the loudest frame does not leave the range; silence stays silent. Frames of others are copied first and never changed. A failed allocation changes nothing.',
  ['inputs', 'fault_sequences'], 'all frames, any number of them, 1, 2 and 8 channels, failing allocation',
  SMOKE + 'nothing is normalized.', ['BKData.c'],
  [('maximum and scaling loops', 'BKDataNormalize'), ('copy before writing', 'BKDataPromoteToCopy')], ['frames', 'return codes'],
  'Proof for all inputs; the maximum is a recursive definition proved to bound every frame. BKDataConvert (dithering with random numbers and floating point) is outside of the claim.')
P('C16', 'Sequences step through their values, sustain and finish exactly',
  'A sequence of values or an envelope takes exactly the values and step counts it was given, with its sustain range clamped into it; invalid lengths and failed allocations make nothing. Playing it visits each value in order, repeats the sustain range until it is released and never otherwise, continues behind it after release, and reports its end exactly once; envelopes slide between the values of their phases in the given number of steps. A copy is an independent sequence with equal values; a state which leaves its sequence keeps nothing of it.',
  ['inputs', 'histories', 'fault_sequences'], 'sequences and envelopes of any length, all sustain ranges, all phases and positions, failing allocation',
  SMOKE + 'one envelope is played and only listened to.', ['BKSequence.c', 'BKSequence.h'],
  [('creation and copies', 'BKSequenceCreate, BKSequenceCopy'), ('step and phase functions', 'BKSequenceSimpleStep, BKSequenceEnvelopeStep'), ('list of states', 'BKSequenceStateSetSequence, BKSequenceDispose')],
  ['values of the sequence state', 'step results', 'heap blocks'], 'Proof for all inputs and lengths.')
P('C17', 'Instruments keep their playing states consistent with their sequences',
  'A new sequence or envelope replaces the one of its slot in the instrument and in every state which uses it; all states are reset and told, and a request which cannot be fulfilled changes nothing. States join and leave instruments at any place of the list and begin with the attack. Attack, release and mute reach every sequence exactly once; the instrument is muted exactly when its last sequence has ended, which is told once. Slots without sequence give the value which changes nothing. A disposed or detached instrument is forgotten by all states, disposes each sequence once; a copy has own copies of all sequences and no states.',
  ['inputs', 'histories', 'fault_sequences'], 'any number of states with or without callback, all combinations of the 4 slots, all results of the sequences, failing creation',
  SMOKE + 'one instrument with one state is used.', ['BKInstrument.c', 'BKInstrument_internal.h'],
  [('list of states', 'BKInstrumentStateSetInstrument, BKInstrumentDetach'), ('replacement', 'BKInstrumentSetSequence, BKInstrumentSetEnvelope'), ('phases', 'BKInstrumentStateSetPhase, BKInstrumentStateTick')],
  ['list links', 'sequence calls', 'callback calls'], 'Proof for lists of any length; sequence functions are used by their contracts (C16).')
P('C15', 'Tracks play notes, effects and instruments exactly as set',
  'Every attribute and effect of a track is clamped, kept and read back, and what it changes reaches the unit with the next update. The unit then has exactly the volume of track, instrument, tremolo, slide, panning and master volume, and the period of the note with arpeggio, pitch, vibrato and instrument. A note after silence begins with instrument and sample and otherwise slides; a released note ends with its instrument, a muted one at once. Each tick advances effects, arpeggio and instrument exactly when due. Attaching, detaching, clearing and disposing tracks keep context, unit, instrument and sample in step with the track.',
  ['inputs', 'histories'], 'all attribute values, all states of slides, intervals and flags, all instruments, samples and contexts; arpeggios and effect values of any announced size from a list of sizes',
  SMOKE + 'one track plays a few notes which are only listened to.', ['BKTrack.c', 'BKTrack.h'],
  [('attributes and effects', 'BKTrackSetAttr, BKTrackGetAttr, BKTrackSetEffect, BKTrackSetPtr'), ('update of the unit', 'BKTrackRun'), ('ticks', 'BKTrackTick'), ('lifecycle', 'BKTrackAttach, BKTrackDetach, BKTrackReset, BKTrackInit')],
  ['attributes and pulses of the unit', 'return codes', 'values read back', 'calls of instrument functions'],
  'Proof for all inputs; slides, intervals, instruments, unit attributes and tone lookup are used by their contracts (C12, C13, C14, C16, C17, C27).')
P('C21', 'WAVE files are written completely and exactly',
  'A writer for a seekable, writable file puts exactly one header before the first frames, appends all frames of any number of calls in order in the format of the file (unsigned 8 bits or little endian 16 bits), and completes the sizes in the header when it is terminated or disposed; it never touches any other byte, so that after termination the header describes exactly the frames written, and more frames can follow. Unusable files and bit formats are refused with their error.',
  ['inputs', 'histories'], 'all numbers of frames below 2^30 per call, all start positions, 1 to 8 channels, sample rates below 2^23, both formats; every byte of the file',
  SMOKE + 'one file is written and never read.', ['BKWaveFileWriter.c', 'BKWaveFile_internal.h'],
  [('header', 'BKWaveFileWriterWriteHeader'), ('conversion of frames', 'BKWaveFileWriterAppendFrames'), ('sizes', 'BKWaveFileWriterTerminate'), ('whole file', 'BKWaveFileWriteData')],
  ['bytes of the file', 'position of the file', 'return codes'],
  'Proof for all inputs; the file is a ghost used by assumed contracts of fwrite, fseek, ftell and fflush, which succeed.')
P('C22', 'WAVE files are read exactly, everything else is refused',
  'A reader accepts exactly the files with a PCM format of 8 or 16 bits and 1 to 8 channels, skips format extensions and any number of other chunks, and reports channels, sample rate and the number of complete frames of the first data chunk, also if its size is missing. Reading gives each frame with exactly its value and zero for frames missing in a truncated file, and never writes behind the frames announced. Refused files change nothing.',
  ['inputs', 'histories'], 'files of any content and size below 2^40, any number of chunks, truncation at every byte',
  SMOKE + 'no WAVE file is read.', ['BKWaveFileReader.c', 'BKWaveFile_internal.h'],
  [('header and chunks', 'BKWaveFileReaderReadHeader'), ('frames', 'BKWaveFileReaderReadFrames')],
  ['frames', 'reported dimensions', 'return codes'],
  'Proof for all file contents; the file is a ghost used by assumed contracts of fread, fseek and ftell, where reading is only short at the end of the file.')
