"""B15: interned strings keep their identity."""
from run import Direct
from b14 import stage

RULE = ('Random histories of registering (protected or not), reading and collecting up to 2000 strings, many with colliding hashes, prefixes of each other and of any length, run on the '
        'real string manager next to a model: a string has one id as long as it lives, two live strings never share one, an id gives back exactly its text, a collection removes exactly the '
        'strings that are neither marked nor protected and keeps the others where they are; also when hundreds of thousands of short-lived strings make every id be used again; under ASan/UBSan with leak detection. Non-trivial: all histories.')
ASSUMPTIONS = ['at most 4000 strings are alive at a time (the limit of the id space, 65536, is not reached)']

STAGES = [Direct('histories', stage('strman', 12, 2000), 100, 1500), Direct('long histories', stage('strman', 1, 20000), 24, 400),
          Direct('ids used again', stage('strids', 1, 2000), 24, 400)]
