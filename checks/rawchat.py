"""Raw chatter messages - peer which is not bound by the protocol"""


def message(type, data, id=1, first=None, owner=True, last=False, raw=False):
    """Chatter message bytes"""
    from hat.drivers.chatter import _sbs_repo
    from hat.event import common
    msg = {'id': id, 'first': first or id, 'owner': owner, 'token': True,
           'last': last,
           'data': {'type': type,
                    'data': (data if raw else
                             common.sbs_repo.encode(type, data))}}
    body = bytes(_sbs_repo.encode('HatChatter.Msg', msg))
    size = len(body).to_bytes(max(1, (len(body).bit_length() + 7) // 8), 'big')
    return bytes([len(size)]) + size + body


async def receive(conn):
    """Receive message from TCP connection (type, data, msg)"""
    from hat.drivers.chatter import _sbs_repo
    from hat.event import common
    while True:
        size = (await conn.readexactly(1))[0]
        size = int.from_bytes(await conn.readexactly(size), 'big')
        msg = _sbs_repo.decode('HatChatter.Msg', await conn.readexactly(size))
        if msg['data']['type'] not in ('HatChatter.Ping', 'HatChatter.Pong'):
            break
    data = common.sbs_repo.decode(msg['data']['type'], msg['data']['data'])
    return msg['data']['type'], data, msg
