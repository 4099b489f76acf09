"""as in redis-py"""


def bool_ok(response, **options):
    return (response.decode() if isinstance(response, bytes) else response) == 'OK'


def _value(v):
    try:
        return float(v) if '.' in v else int(v)
    except ValueError:
        return v


def parse_info(response):
    info = {}
    text = response.decode('utf-8', 'replace') if isinstance(response, bytes) else response
    for line in text.splitlines():
        if line and not line.startswith('#'):
            if ':' in line:
                k, v = line.split(':', 1)
                info[k] = _value(v)
            else:
                info.setdefault('__raw__', []).append(line)
    return info
