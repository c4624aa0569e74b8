"""Public constants of BKBase.h (their values are part of the interface)."""


def _enum(base, names):
    return {n: base + 1 + i for i, n in enumerate(names.split())}


K = {}
K.update(_enum(1 << 12, 'NUM_CHANNELS SAMPLE_RATE TIME PULSE_KERNEL'))
K.update(_enum(2 << 12, '''WAVEFORM DUTY_CYCLE PERIOD PHASE PHASE_WRAP NUM_PHASES MASTER_VOLUME VOLUME VOLUME_0 VOLUME_1 VOLUME_2
 VOLUME_3 VOLUME_4 VOLUME_5 VOLUME_6 VOLUME_7 MUTE PITCH SAMPLE_RANGE SAMPLE_REPEAT SAMPLE_SUSTAIN_RANGE SAMPLE_IMMED_RELEASE
 SAMPLE_PERIOD SAMPLE_PITCH SAMPLE_CALLBACK FLAG_RELEASE NOTE ARPEGGIO PANNING INSTRUMENT CLOCK_PERIOD ARPEGGIO_DIVIDER
 EFFECT_DIVIDER INSTRUMENT_DIVIDER TRIANGLE_IGNORES_VOLUME'''))
K.update(_enum(3 << 12, 'NUM_FRAMES'))
K.update(_enum(4 << 12, 'SQUARE TRIANGLE NOISE SAWTOOTH SINE CUSTOM SAMPLE'))
K.update(_enum(5 << 12, 'VOLUME_SLIDE PANNING_SLIDE PORTAMENTO TREMOLO VIBRATO'))
K.update(_enum(6 << 12, 'EV_CLOCK EV_DIVIDER EV_SAMPLE_BEGIN EV_SAMPLE_RESET'))
K.update(_enum(-7 << 12, '''ALLOCATION_ERROR INVALID_ATTRIBUTE INVALID_VALUE INVALID_STATE INVALID_NUM_CHANNELS INVALID_NUM_FRAMES
 INVALID_NUM_BITS INVALID_RETURN_VALUE FILE_ERROR FILE_NOT_READABLE FILE_NOT_WRITABLE FILE_NOT_SEEKABLE OTHER_ERROR'''))
K.update(NO_REPEAT=0, REPEAT=1, PALINDROME=2)
