"""Which obligations of which operations make up each property."""
import re

REQ = r'request\d+\.'


def has_options(op):
    return any('Options' in (s.get('name') or '') for _, s in op['args'])


def own_request(op, label):
    """Not the download of a received email's raw content, which is no API call."""
    return not (op.get('forward') and label.startswith('request1.'))


def rx(*pats):
    r = re.compile('^(?:' + '|'.join(pats) + ')$')
    return lambda op, l: bool(r.match(l))


def net(f):
    return lambda op, l: own_request(op, l) and f(op, l)


api = lambda op: not op.get('local') and not op.get('config')
flag = lambda n: (lambda op: bool(op.get(n)))

# property -> (operations, labels)
PROPS = {
    'C01': (api, rx(r'outcome', r'(local\.)?result.*')),
    'C02': (api, net(rx(REQ + r'(base|init|headers\.(authorization|user-agent|content-type|other))'))),
    'C03': (lambda op: api(op) and has_options(op), net(rx(REQ + r'(init|headers\..*)'))),
    'C04': (api, rx(r'requests\.count')),
    'C05': (api, net(rx(REQ + r'(method|path)'))),
    'C06': (flag('email'), rx(REQ + r'(body.*|form.*)')),
    'C07': (flag('batch'), rx(REQ + r'(body.*|form.*|headers\..*|init)', r'requests\.count')),
    'C08': (flag('react'), rx(REQ + r'body(\.html|\.react)?', r'outcome(\.error)?', r'requests\.count')),
    'C09': (lambda op: api(op) and not op.get('core'), net(rx(REQ + r'query\..*'))),
    'C10': (lambda op: op.get('write') or op['id'] in ('post', 'put', 'patch', 'delete'), rx(REQ + r'(body.*|form.*)')),
    'C11': (flag('update'), rx(REQ + r'(body.*|form.*)')),
    'C12': (lambda op: True, rx(r'frame\..*')),
    'C13': (flag('free'), rx(REQ + r'path')),
    'C14': (flag('valid'), rx(r'local\..*', r'requests\.count')),
    'C15': (flag('contact'), rx(REQ + r'path')),
    'C16': (flag('automation'), rx(REQ + r'(body.*|form.*)')),
    'C17': (flag('imports'), rx(REQ + r'(form.*|body.*|headers\.content-type)')),
    'C18': (flag('cprops'), rx(r'(local\.)?result.*', r'outcome')),
    'C19': (flag('verify'), rx(r'outcome', r'(local\.)?result.*', r'requests\.count')),
    'C20': (flag('chain'), rx(r'requests\.count', r'outcome', r'(local\.)?result.*', r'request1\.(method|path|body.*|query.*)')),
    'C21': (flag('forward'), rx(r'outcome.*', r'(local\.)?result.*', r'requests\.count', REQ + '.*')),
    'C22': (flag('config'), rx(r'outcome', r'(local\.)?result.*', r'requests\.count', REQ + r'(path|base|headers\.(authorization|user-agent))')),
    'C23': (api, rx(r'log\..*')),
}

# members in which a chained or forwarded operation's own payload is another
# property's concern are filtered here: the driver of C08 looks at html only for
# objects, at everything for lists (batches)
def relevant(prop, op, label):
    ops, labels = PROPS[prop]
    if not ops(op):
        return False
    if not labels(op, label):
        return False
    if prop == 'C08' and re.match(REQ + r'body$', label) and not op.get('batch'):
        return False
    return True


# concrete mismatches count wherever an operation of the property shows them;
# these properties also speak about what other calls do to a call
def relevant_native(prop, op, label, mode):
    if prop == 'C12':
        return label.startswith('frame.')
    if prop == 'C22' and mode != 'single call' and api(op):
        return bool(re.match(REQ + r'(base|headers\.(authorization|user-agent))$', label)) and own_request(op, label)
    return relevant(prop, op, label)
