# technique and level note of each check, taken from the table in DESIGN.md
import re as _re
NOTES = {}
for _l in open(os.path.join(V, 'DESIGN.md')):
    _m = _re.match(r'\| (C\d\d) [^|]*\| ([^|]*) \| ([^|]*) \| ([^|]*) \|', _l)
    if _m:
        NOTES[_m[1]] = ('property-based testing with generated inputs and shrinking (Hypothesis, enumeration); oracle: ' + _m[2].strip(),
                        'explored, not proved. Generated: %s. Beyond the tests: %s. Finite enumerations are complete in the thorough tier; generated spaces are sampled.' % (_m[3].strip(), _m[4].strip()))
