"""The combinations of optional features that C30 builds, one per line."""
import itertools, sys
ALL = ['faithful', 'cookies', 'url_variables', 'raw_headers', 'extended_queries', 'json']
if sys.argv[1:] == ['thorough']:
    sets = [c for n in range(len(ALL)) for c in itertools.combinations(ALL, n)]
else:
    # none at all, and all but one
    sets = [()] + [tuple(f for f in ALL if f != x) for x in ALL]
for s in sets:
    # query_strings exists but switches nothing; it stands for itself in every second set
    print('-'.join(list(s) or ['query_strings']))
