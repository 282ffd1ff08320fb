"""Per property: cases and seconds of recording per tier, design models.

A design model is (module, configuration) of spec/.  The configurations
called MC_* run the state machine of the method (Adaptive.tla), ML_* the facts
it rests on (Lemmas.tla), LL_* the facts about linear data (LinLemmas.tla).
"""
Q, T = (5000, 24), (200000, 240)

PLAIN, MERGE = ('Adaptive', 'MC_plain'), ('Adaptive', 'MC_merge')
MERGE3 = ('Adaptive', 'MC_merge32')
HIST = [('AdaptiveHist', 'HI_plain'), ('AdaptiveHist', 'HI_merge')]
HDEEP = [('AdaptiveHist', 'HI_merge5')]
DEEP = [('Adaptive', 'MC_merge5'), ('Adaptive', 'MC_merge52'),
        ('Adaptive', 'MC_plain5')]
L1, L2 = ('Lemmas', 'ML_41'), ('Lemmas', 'ML_42')
LDEEP = [('Lemmas', 'ML_413'), ('Lemmas', 'ML_423'), ('Lemmas', 'ML_52')]
BIN, CONT = ('LinLemmas', 'LL_bin'), ('LinLemmas', 'LL_cont')
BDEEP = [('LinLemmas', 'LL_bin3'), ('LinLemmas', 'LL_cont3')]
RUN, TAB, FIL = ('Run', 'RN_run'), ('Tables', 'TB_two'), ('Files', 'FL_two')
PIPE, PIPE2 = ('Pipeline', 'PL_two'), ('Pipeline', 'PL_risk')
PDEEP = [('Pipeline', 'PL_deep')]
RDEEP, TDEEP, FDEEP = [('Run', 'RN_deep')], [('Tables', 'TB_three')], \
    [('Files', 'FL_three')]


def p(models=(), deep=(), quick=Q, thorough=T, assumptions=()):
    return dict(quick=quick, thorough=thorough, models=list(models),
                models_thorough=list(deep), assumptions=list(assumptions))


PLAN = {
    'C01': p([PLAIN, MERGE, L1], DEEP + LDEEP),
    'C02': p([PLAIN, MERGE], DEEP),
    'C03': p([PLAIN, MERGE], DEEP),
    'C04': p([PLAIN, L1, L2], DEEP + LDEEP),
    'C05': p([MERGE3, L1], DEEP + LDEEP),
    'C06': p([MERGE, L1], DEEP + LDEEP),
    'C07': p([MERGE, L1, L2], DEEP + LDEEP),
    'C08': p([BIN, CONT], BDEEP),
    'C09': p([L1, L2, BIN], LDEEP + BDEEP),
    'C10': p([BIN], BDEEP),
    'C11': p([L1, L2], LDEEP),
    'C12': p([L1], LDEEP),
    'C13': p([L1, L2], LDEEP),
    'C14': p([L1], LDEEP),
    'C15': p([BIN, CONT], BDEEP),
    'C16': p([PLAIN, RUN], DEEP + RDEEP),
    'C17': p([MERGE, RUN], DEEP + RDEEP),
    'C18': p([L1, L2], LDEEP),
    'C19': p([FIL], FDEEP),
    'C20': p([RUN, TAB], DEEP + RDEEP),
    'C21': p([L1, L2], LDEEP),
    'C22': p([L1], LDEEP),
    'C23': p([PLAIN, MERGE3] + HIST, DEEP + HDEEP),
    'C24': p([TAB], TDEEP),
    'C25': p([L1, BIN], LDEEP + BDEEP),
    'C26': p(),
    'C27': p([PIPE, PIPE2], PDEEP),
}
