CHECKS = {
    'C01': ('amf', 'c01'),
    'C02': ('amf', 'c02'),
    'C03': ('amf', 'c03'),
    'C04': ('amf', 'c04'),
    'C05': ('amf', 'c05'),
    'C06': ('amf', 'c06'),
    'C07': ('amf', 'c07'),
    'C08': ('classes', 'c08'),
    'C09': ('classes', 'c09'),
    'C10': ('remoting', 'c10'),
    'C11': ('gateway', 'c11'),
    'C12': ('gateway', 'c12'),
    'C13': ('gateway', 'c13'),
    'C14': ('remoting', 'c14'),
    'C15': ('files', 'c15'),
    'C16': ('streams', 'c16'),
    'C19': ('dates', 'c19'),
    'C20': ('xmldocs', 'c20'),
    'C17': ('flexes', 'c17'),
    'C18': ('hooks', 'c18'),
    'C21': ('mappings', 'c21'),
    'C22': ('codecs', 'c22'),
    'C23': ('codecs', 'c23'),
    'C24': ('streams', 'c24'),
}

GEN = 'TLA+ state machine; TLC generates behaviours that are replayed into ' \
      'the code, and TLC judges what was observed'
AMF = ('behaviours are drawn at random within the bounds of AMFGen.tla '
       '(graphs of up to about 30 nodes; a fixed pool of names, dates and '
       'documents); each is judged completely')
NOTES = {
    'C01': (GEN, AMF),
    'C02': (GEN, AMF),
    'C03': (GEN, AMF),
    'C04': (GEN, AMF),
    'C05': (GEN, 'all powers of two and neighbours, doubles of every class '
                 'and random ones, in random histories over four encoders'),
    'C06': (GEN, AMF + '; cut at every position (at most 40 of one stream), '
                 'and handed over in random pieces'),
    'C07': (GEN, AMF + '; broken by one reference, marker or class that does '
                 'not exist, or by random damage'),
    'C08': (GEN, 'every way to declare one name in a class and its base, and '
                 'random hierarchies of four classes over ten names'),
    'C09': (GEN, 'every operation in every reachable state of two small sets of '
                 'classes and aliases (bounded number of operations), and '
                 'random histories of 30 operations over ten classes'),
    'C10': (GEN, 'random histories of building an envelope over random value graphs, '
                 'and random valid, cut, damaged and flawed messages (up to three '
                 'headers and four bodies), strict or not'),
    'C11': (GEN, 'random histories of 12 operations on a gateway (catalogue of 12 '
                 'services, 7 authenticators, 4 preprocessors), up to four '
                 'requests in a message'),
    'C12': (GEN, 'random histories of 12 operations on a gateway, as for C11'),
    'C13': (GEN, 'random histories of 12 operations on a gateway, as for C11, with '
                 'other methods and five kinds of undecodable bodies'),
    'C14': (GEN, 'random histories of 16 operations against a scripted server on the '
                 'loopback interface'),
    'C15': (GEN, AMF + '; up to three values in a file, six ways to save and four to '
                 'load; ten kinds of flaws, and files cut at every position'),
    'C16': (GEN, 'every operation of a small set in every reachable state of '
                 'up to three bytes, and random histories of 40 operations; '
                 'cursors stay within the content'),
    'C17': (GEN, 'random histories of 25 operations on a collection or a proxy, random '
                 'graphs of up to eight lists, objects and typed objects sent with '
                 'proxies, and up to three messages with random attributes'),
    'C18': (GEN, 'random programs over eight modules (four of them a package) and six '
                 'hooks, with failing modules, nested imports, hooks that import, '
                 'register or raise; one thread'),
    'C19': (GEN, 'a pool of about 500 dates from year 1 to 9999 (plain, with and '
                 'without fractions, aware, date and time objects), every '
                 'protocol, eight offsets given in four ways; gateways over WSGI '
                 'and Django'),
    'C20': (GEN, 'documents written out of random choices with known meaning '
                 '(declarations, entities, five encodings, AMF0, AMF3 and AMF3 in '
                 'AMF0, envelopes), at the four settings'),
    'C21': (GEN, 'random histories of 20 operations over eight mapped types and eleven '
                 'conversions, graphs of up to seven nodes of 17 types; mappings '
                 'that do not overlap'),
    'C22': (GEN, AMF + '; processors of seven kinds, up to two of them; streams '
                 'of one protocol'),
    'C23': (GEN, AMF + '; histories of writes, generators, failing values, clear '
                 'and getvalue on one encoder, both protocols'),
    'C24': (GEN, 'random histories of 40 typed writes and reads of pools of '
                 'edge values and random value graphs'),
}
NOT_APPLICABLE = {}
