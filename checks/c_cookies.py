"""C35: the cookie jar against a reference implementation of RFC 6265."""
import pickle, re
from datetime import datetime, timedelta, timezone
from http.cookies import SimpleCookie
import vsim
from hypothesis import strategies as st
from scarletio.web_common import CookieJar, URL
from vharness import Property, check, check_eq

C35 = Property('C35', rule = (
    'Up to 14 operations on a jar: cookies with any mix of domain, path, secure, max-age and expires set by responses of 9 hosts (names, sub domains, addresses), '
    'time passing, pickling, clearing and requests. Non-trivial = a request got a cookie while an other one of the jar was withheld or expired.'
))

HOSTS = ['a.example', 'sub.a.example', 'deep.sub.a.example', 'b.example', 'xa.example', 'A.Example', '10.0.0.1', '[fd00::1]', 'localhost']
DOMAINS = ['', '', '', 'a.example', '.a.example', 'A.Example', 'sub.a.example', 'example', 'b.example', 'a.example.', 'xa.example', '10.0.0.1', '0.0.1', '.', 'localhost', '.SUB.a.example']
PATHS = ['', '', '/', '/a', '/a/', '/a/b', 'a', '/A', '/a%20b', '/ab']
URL_PATHS = ['', '/', '/a', '/a/', '/ab', '/a/b', '/a/b/c', '/a%20b', '/a%20b/x', '/A/x', '/x/y/z', '/a/b?q=/c/d#/e']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def reference_date(value):
    """RFC 6265 5.1.1"""
    time = day = month = year = None
    for token in re.findall('[\x00-\x08\x0a-\x1f0-9:a-zA-Z\x7f-\xff]+', value):
        if time is None:
            match = re.match('([0-9]{1,2}):([0-9]{1,2}):([0-9]{1,2})(?:[^0-9]|$)', token, re.S)
            if match:
                time = [int(item) for item in match.groups()]
                continue
        if day is None:
            match = re.match('([0-9]{1,2})(?:[^0-9]|$)', token, re.S)
            if match:
                day = int(match.group(1))
                continue
        if month is None:
            if token[: 3].title() in MONTHS and token[: 3].isalpha():
                month = MONTHS.index(token[: 3].title()) + 1
                continue
        if year is None:
            match = re.match('([0-9]{2,4})(?:[^0-9]|$)', token, re.S)
            if match:
                year = int(match.group(1))
                continue
    if None in (time, day, month, year):
        return None
    if 70 <= year <= 99:
        year += 1900
    elif year <= 69:
        year += 2000
    if year < 1601:
        return None
    try:
        return datetime(year, month, day, *time, tzinfo = timezone.utc)
    except ValueError:
        return None


def is_address(host):
    return host.replace('.', '').isdigit() or ':' in host


def domain_match(domain, host):
    return host == domain or (host.endswith('.' + domain) and not is_address(host))


def path_match(path, cookie_path):
    return path == cookie_path or (path.startswith(cookie_path) and (cookie_path.endswith('/') or path[len(cookie_path)] == '/'))


def default_path(path):
    if path.count('/') <= 1:
        return '/'
    return path.rpartition('/')[0]


class Cookie:
    def __init__(self, name, value, domain, path, host_only, secure, ends):
        self.name = name
        self.value = value
        self.domain = domain
        self.path = path
        self.host_only = host_only
        self.secure = secure
        # in virtual time
        self.ends = ends


class Model:
    def __init__(self, unsafe):
        self.unsafe = unsafe
        self.cookies = {}

    def expire(self):
        for key, cookie in [*self.cookies.items()]:
            if cookie.ends is not None and cookie.ends <= vsim.CLOCK.now:
                del self.cookies[key]

    def set(self, url, name, value, attributes):
        if url is None:
            host = None
            url_path = '/'
        else:
            host, url_path = url
            if is_address(host) and not self.unsafe:
                return
        domain = attributes['domain'].lower()
        if domain.endswith('.'):
            domain = ''
        if domain.startswith('.'):
            domain = domain[1 :]
        host_only = False
        if domain:
            if host is not None and not domain_match(domain, host):
                return
        elif host is not None:
            domain = host
            host_only = True
        path = attributes['path']
        if not path.startswith('/'):
            path = default_path(url_path)
        ends = None
        max_age = attributes['max-age']
        if re.fullmatch('-?[0-9]+', max_age):
            ends = vsim.CLOCK.now + min(max(int(max_age), 0), 10 ** 12)
        else:
            date = reference_date(attributes['expires'])
            if date is not None:
                left = (date - datetime.now(timezone.utc)).total_seconds()
                ends = vsim.CLOCK.now + left
        self.cookies[name, domain, path] = Cookie(name, value, domain, path, host_only, attributes['secure'], ends)
        self.expire()

    def get(self, url):
        scheme, host, path = url
        self.expire()
        out = {}
        for cookie in self.cookies.values():
            if cookie.domain:
                if is_address(host) and not self.unsafe:
                    continue
                if host != cookie.domain if cookie.host_only else not domain_match(cookie.domain, host):
                    continue
                if not path_match(path, cookie.path):
                    continue
                if cookie.secure and scheme not in ('https', 'wss'):
                    continue
            out.setdefault(cookie.name, []).append(cookie)
        return out


def _date_texts():
    """Dates are at least a day away from now."""
    def build(days, form, case):
        date = datetime(2000, 1, 1, 1, 2, 3) + timedelta(days = days)
        month = MONTHS[date.month - 1]
        if case:
            month = {1: month.upper(), 2: month.lower(), 3: month + 'uary'}[case]
        year = date.year
        clock = f'{date:%H:%M:%S}'
        return {
            0: f'{date:%a}, {date.day:02} {month} {year:04} {clock} GMT',
            1: f'{date:%A}, {date.day:02}-{month}-{year % 100:02} {clock} GMT',
            2: f'{date:%a} {month} {date.day:2} {clock} {year:04}',
            3: f'{year:04} {month} {date.day} {clock}',
            4: f'{clock} {date.day} {month} {year:04}',
            5: f'{date:%a}, {date.day}-{month}-{year:04} {date.hour}:{date.minute}:{date.second}',
            6: f'{year:04}/{month}/{date.day}/{clock}x',
        }[form]
    return st.one_of(
        st.builds(build, st.one_of(st.integers(-36000, 8000), st.integers(14000, 25560), st.integers(25203, 25560), st.integers(14000, 2000000)), st.integers(0, 6), st.sampled_from([0, 0, 0, 1, 2, 3])),
        st.sampled_from([
            'Thu, 01 Jan 1970 00:00:00 GMT', 'Fri, 30 Feb 2001 10:00:00 GMT', 'Fri, 30 Feb 2091 10:00:00 GMT', 'Thu, 31 Apr 2090 10:00:00', '0', 'soon', '',
            'Thu, 01 Jan 2001 24:00:00 GMT', 'Thu, 01 Jan 2001 10:60:00 GMT', 'Thu, 01 Jan 1600 10:00:00 GMT', 'Thu, 00 Jan 2001 10:00:00 GMT', 'Thu, 32 Jan 2001 10:00:00 GMT',
            '1 Jan 10:00:00', 'Jan 2001 10:00:00', '1 Jan 2001', '01 Jan 20011 10:00:00', '001 Jan 2001 10:00:00 01', '1 Jan 9999 23:59:59 GMT', '1 Jan 1 10:00:00', '1 Jan 001 10:00:00',
        ]),
        st.lists(st.sampled_from(['1', '12', '31', '99', '70', '2001', '2090', '20011', 'jan', 'Febr', 'xmay', '10:11:12', '1:2:3', '10:11:123', '10:11', '25:00:00', 'GMT', 'x', '01x', '2091x']), max_size = 7).map(' '.join),
    )


AGES = st.one_of(st.just(''), st.just(''), st.sampled_from(['0', '-1', '1', '5', '100', '5000', '100000', '9' * 30, '9' * 400, '-' + '9' * 400, 'x', '1.5', '', ' ']))
EXPIRES = st.one_of(st.just(''), st.just(''), _date_texts())


def _strategy():
    url = st.tuples(st.sampled_from(['http', 'https', 'http', 'ws', 'wss']), st.sampled_from(HOSTS), st.sampled_from(URL_PATHS))
    cookie = st.tuples(
        st.sampled_from(['n', 'm', 'o']), st.sampled_from(['', 'v', 'a b', '1;2']), st.sampled_from(DOMAINS), st.sampled_from(PATHS),
        st.sampled_from([False, False, True]), AGES, EXPIRES,
    )
    plain = st.tuples(
        st.sampled_from(['n', 'm', 'o']), st.sampled_from(['', 'v', 'a b', '1;2']), st.sampled_from(['', 'a.example', 'sub.a.example']), st.sampled_from(['', '/', '/a']),
        st.just(False), st.sampled_from(['', '', '5']), st.just(''),
    )
    operation = st.one_of(
        st.tuples(st.just('set'), st.one_of(url, url, url, st.none()), st.lists(st.one_of(cookie, plain), min_size = 1, max_size = 3)),
        st.tuples(st.just('set'), url, st.lists(plain, min_size = 1, max_size = 2)),
        st.tuples(st.just('get'), url),
        st.tuples(st.just('get'), url),
        st.tuples(st.just('wait'), st.sampled_from([0.25, 1.0, 5.0, 10.0, 99.5, 0.5, 5000.0])),
        st.sampled_from([('pickle',), ('clear',), ('mutate',), ('pickle',)]),
    )
    return st.tuples(st.booleans(), st.lists(operation, min_size = 2, max_size = 14))


@C35.case('jar', _strategy, quick = 4000, thorough = 80000, shards = 4)
def c35_jar(case, ctx):
    unsafe, operations = case
    vsim.CLOCK.now = 1000.25
    jar = CookieJar(unsafe = unsafe)
    model = Model(unsafe)
    given = []
    counter = 0
    removed = False

    def compare(url):
        scheme, host, path = url
        got = jar.filter_cookies(URL(f'{scheme}://{host}{path}', True))
        path = path.partition('?')[0] or '/'
        expected = model.get((scheme, host.lower().strip('[]'), path))
        check_eq(sorted(got), sorted(expected), 'names of the cookies for a request', url, [vars(cookie) for cookie in model.cookies.values()])
        for name, cookies in expected.items():
            length = max(len(cookie.path) for cookie in cookies)
            check(
                got[name].value in [cookie.value for cookie in cookies if len(cookie.path) == length],
                'value of a cookie', url, name, got[name].value, [(cookie.path, cookie.value) for cookie in cookies],
            )
            check_eq(got[name].OutputString(), f'{name}={got[name].coded_value}', 'cookie of a request')
        if expected and (removed or len(model.cookies) > sum(len(cookies) for cookies in expected.values())):
            ctx.nontrivial()
        check_eq(sorted((cookie.key, cookie.value) for cookie in jar), sorted((cookie.name, cookie.value) for cookie in model.cookies.values()), 'cookies of the jar')
        check_eq(len(jar), len(model.cookies), 'length of the jar')

    for operation in operations:
        kind = operation[0]
        if kind == 'set':
            url, cookies = operation[1 :]
            for name, value, domain, path, secure, max_age, expires in cookies:
                counter += 1
                value = f'{counter}{value}'
                item = SimpleCookie()
                item[name] = value
                attributes = {'domain': domain, 'path': path, 'secure': secure, 'max-age': max_age, 'expires': expires}
                for key, attribute in attributes.items():
                    if attribute:
                        item[name][key] = attribute
                given.append(item)
                before = item.output()
                if url is None:
                    jar.update_cookies(item)
                    model.set(None, name, value, attributes)
                else:
                    scheme, host, url_path = url
                    jar.update_cookies(item, URL(f'{scheme}://{host}{url_path}', True))
                    model.set((host.lower().strip('[]'), url_path.partition('?')[0] or '/'), name, value, attributes)
                if any(cookie.ends is not None for cookie in model.cookies.values()):
                    removed = True
        elif kind == 'get':
            compare(operation[1])
        elif kind == 'wait':
            vsim.CLOCK.now += operation[1]
        elif kind == 'pickle':
            jar = pickle.loads(pickle.dumps(jar))
        elif kind == 'clear':
            jar.clear()
            model.cookies.clear()
        elif kind == 'mutate':
            # changing what was received is none of the business of the jar
            for item in given:
                for morsel in item.values():
                    morsel['path'] = '/other'
                    morsel['domain'] = 'b.example'
                item.clear()
    for host in ('a.example', 'sub.a.example', 'b.example', '10.0.0.1'):
        compare(('https', host, '/a/b'))


def _ageing_strategy():
    """Histories of cookies which are received once, replaced at times and expire one after the other."""
    cookie = st.tuples(
        st.sampled_from(['n', 'm', 'o', 'p']), st.just('v'), st.sampled_from(['', '', 'a.example']), st.sampled_from(['', '/', '/a', '/a/b']),
        st.just(False), st.one_of(st.integers(1, 12).map(str), st.integers(1, 12).map(str), st.integers(1, 12).map(str), st.sampled_from(['', '0', '400'])), st.just(''),
    )
    url = st.just(('https', 'a.example', '/a/b'))
    receiving = st.tuples(st.just('set'), url, st.lists(cookie, min_size = 3, max_size = 6))
    replacing = st.tuples(st.just('set'), url, st.lists(cookie, min_size = 1, max_size = 1))
    step = st.one_of(
        st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0]).map(lambda duration: [('wait', duration), ('get', ('https', 'a.example', '/a/b'))]),
        st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0]).map(lambda duration: [('wait', duration), ('get', ('https', 'a.example', '/a/b'))]),
        st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0]).map(lambda duration: [('wait', duration), ('get', ('https', 'a.example', '/a/b'))]),
        replacing.map(lambda operation: [operation]),
        st.just([('pickle',)]),
    )
    return st.builds(
        lambda first, steps: (False, [first, *(operation for step in steps for operation in step)]),
        receiving, st.lists(step, min_size = 3, max_size = 9),
    )


C35.case('ageing', _ageing_strategy, quick = 1500, thorough = 40000, shards = 2)(c35_jar)
