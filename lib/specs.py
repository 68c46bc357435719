"""Wire formats (RFC 4250-4254, RFC 5656) as data: the oracle for C01-C05."""

# field kinds:
#   ('u8', n)            constant byte
#   ('u32', path)        uint32 field         ('u32c', n) constant uint32
#   ('bool', path)       boolean              ('boolc', b)
#   ('str', path)        string (bytes)       ('strc', b'..') constant string
#   ('utf8', path) ('ascii', path) ('nl', path)   string with validity
#   ('raw', path)        remainder            ('arr', path, n)  n raw bytes (reference to array)
#   ('mp', path)         positive mpint (serialise) / string (parse)
#   ('sub', [..])        length-prefixed group
# path: tuple of field names, relative to the innermost variant's payload

M = 'nora_ssh_core::message::'
CH = M + 'channel::'
UA = M + 'userauth::'
KX = M + 'key_exchange::'

NL10 = ['kex_algorithms', 'server_host_key_algorithms', 'encryption_algorithms_client_to_server',
        'encryption_algorithms_server_to_client', 'mac_algorithms_client_to_server',
        'mac_algorithms_server_to_client', 'compression_algorithms_client_to_server',
        'compression_algorithms_server_to_client', 'languages_client_to_server', 'languages_server_to_client']


def s(*p):
    return ('str', p)


def u(*p):
    return ('u32', p)


# kind: (name, [variant names from Message inwards], message number, fields)
# a path may start with ('@', Variant) to select a nested enum variant held in a field
MESSAGES = [
    ('Disconnect', ['Disconnect'], 1, [u('reason'), s('description'), s('language')]),
    ('Ignore', ['Ignore'], 2, [s('data')]),
    ('Unimplemented', ['Unimplemented'], 3, [u('sequence_number')]),
    ('Debug', ['Debug'], 4, [('bool', ('always_display',)), ('utf8', ('message',)), s('language')]),
    ('ServiceRequest', ['ServiceRequest'], 5, [s('service_name')]),
    ('ServiceAccept', ['ServiceAccept'], 6, [s('service_name')]),
    ('KeyExchangeInit', ['KeyExchangeInit'], 20,
     [('arr', ('cookie',), 16)] + [('nl', (n,)) for n in NL10] + [('bool', ('first_kex_packet_follows',)), ('u32c', 0)]),
    ('NewKeys', ['NewKeys'], 21, []),
    ('KeyExchangeEcdhInit', ['KeyExchangeEcdhInit'], 30, [s('client_ephermal_public_key')]),
    ('KeyExchangeEcdhReply', ['KeyExchangeEcdhReply'], 31, [
        ('sub', [s('server_public_key', 'name'), s('server_public_key', 'blob', 'identifier'), s('server_public_key', 'blob', 'q')]),
        s('server_ephermal_public_key'),
        ('sub', [s('exchange_hash_signature', 'name'),
                 ('sub', [('mp', ('exchange_hash_signature', 'blob', 'r')), ('mp', ('exchange_hash_signature', 'blob', 's'))])])]),
    ('Request/None', ['UserAuth', 'Request'], 50, [s('user'), s('service'), ('strc', b'none'), ('variant', ('method',), 'None')]),
    ('Request/PublicKeyBlob', ['UserAuth', 'Request'], 50, [
        s('user'), s('service'), ('strc', b'publickey'), ('variant', ('method',), 'PublicKeyBlob'), ('boolc', 0),
        s('method', 'algorithm'), s('method', 'blob')]),
    ('Request/PublicKeySigned', ['UserAuth', 'Request'], 50, [
        s('user'), s('service'), ('strc', b'publickey'), ('variant', ('method',), 'PublicKeySigned'), ('boolc', 1),
        s('method', 'algorithm'), s('method', 'key'), s('method', 'signature')]),
    ('Request/Password', ['UserAuth', 'Request'], 50, [
        s('user'), s('service'), ('strc', b'password'), ('variant', ('method',), 'Password'), ('boolc', 0), s('method', 'password')]),
    ('Request/PasswordRenew', ['UserAuth', 'Request'], 50, [
        s('user'), s('service'), ('strc', b'password'), ('variant', ('method',), 'PasswordRenew'), ('boolc', 1),
        s('method', 'old_password'), s('method', 'new_password')]),
    ('Request/HostBased', ['UserAuth', 'Request'], 50, [
        s('user'), s('service'), ('strc', b'hostbased'), ('variant', ('method',), 'HostBased'), s('method', 'algorithm'),
        s('method', 'key_and_certificates'), ('ascii', ('method', 'host_name')), ('utf8', ('method', 'user_name')),
        s('method', 'signature')]),
    ('Request/Other', ['UserAuth', 'Request'], 50, [
        s('user'), s('service'), ('variant', ('method',), 'Other'),
        ('strnot', ('method', 'method'), (b'none', b'publickey', b'password', b'hostbased')), ('raw', ('method', 'data'))]),
    ('UserAuthFailure', ['UserAuth', 'Failure'], 51, [('nl', ('alternative_methods',)), ('bool', ('partial_success',))]),
    ('UserAuthSuccess', ['UserAuth', 'Success'], 52, []),
    ('Banner', ['UserAuth', 'Banner'], 53, [s('message'), s('language')]),
    ('PublicKeyOk', ['UserAuth', 'PublicKeyOk'], 60, [s('algorithm'), s('blob')]),
    ('Open', ['Channel', 'Open'], 90, [s('ty'), u('sender_channel'), u('window_size'), u('max_packet_size')]),
    ('OpenConfirmation', ['Channel', 'OpenConfirmation'], 91, [
        u('recipient_channel'), u('sender_channel'), u('window_size'), u('max_packet_size'), ('raw', ('data',))]),
] + [
    ('OpenFailure/' + v, ['Channel', 'OpenFailure'], 92, [
        u('recipient_channel'), ('variant', ('reason',), v),
        ('u32c', n) if n else ('u32not', ('reason', '0'), (1, 2, 3, 4)), ('utf8', ('description',)), s('language')])
    for v, n in (('AdminstrativelyProhibited', 1), ('ConnectFailed', 2), ('UnknownChannelType', 3), ('ResourceShortage', 4), ('Other', 0))
] + [
    ('WindowAdjust', ['Channel', 'WindowAdjust'], 93, [u('recipient_channel'), u('add_bytes')]),
    ('Data', ['Channel', 'Data'], 94, [u('recipient_channel'), s('data')]),
    ('ExtendedData', ['Channel', 'ExtendedData'], 95, [u('recipient_channel'), u('ty'), s('data')]),
    ('Eof', ['Channel', 'Eof'], 96, [u('recipient_channel')]),
    ('Close', ['Channel', 'Close'], 97, [u('recipient_channel')]),
    ('ChannelRequest', ['Channel', 'Request'], 98, [
        u('recipient_channel'), s('ty'), ('bool', ('want_reply',)), ('raw', ('data',))]),
    ('ChannelSuccess', ['Channel', 'Success'], 99, [u('recipient_channel')]),
    ('ChannelFailure', ['Channel', 'Failure'], 100, [u('recipient_channel')]),
]

SIGNALS = [('ABRT', 'Abort'), ('ALRM', 'Alarm'), ('FPE', 'FloatingPointException'), ('HUP', 'Hangup'), ('ILL', 'Illegal'),
           ('INT', 'Interrupt'), ('KILL', 'Kill'), ('PIPE', 'Pipe'), ('QUIT', 'Quit'), ('SEGV', 'SegmentationFault'),
           ('TERM', 'Terminate'), ('USR1', 'User1'), ('USR2', 'User2')]

SESSION = [
    ('Pty', b'pty-req', [s('terminal'), u('char_width'), u('char_height'), u('pixel_width'), u('pixel_height'), s('modes')]),
    ('X11', b'x11-req', [('bool', ('single_connection',)), s('auth_protocol'), s('auth_cookie'), u('screen')]),
    ('Env', b'env', [s('name'), s('value')]),
    ('Shell', b'shell', []),
    ('Exec', b'exec', [s('command')]),
    ('Subsystem', b'subsystem', [s('name')]),
    ('WindowChange', b'window-change', [u('char_width'), u('char_height'), u('pixel_width'), u('pixel_height')]),
    ('XonXoff', b'xon-xoff', [('bool', ('on',))]),
    ('Signal', b'signal', [('signal', ('signal',))]),
    ('ExitStatus', b'exit-status', [u('status')]),
    ('ExitSignal', b'exit-signal', [('signal', ('signal',)), ('bool', ('core_dumped',)), ('utf8', ('message',)), s('language')]),
]
