MODULES = {}


def _(module, *ids):
    for id_ in ids:
        MODULES[id_] = module


_('c_locks', 'C05')
_('c_queues', 'C06')
_('c_groups', 'C07', 'C08')
_('c_tasks', 'C01', 'C02', 'C03', 'C04')
_('c_timers', 'C09', 'C10', 'C11')
_('c_threads', 'C12', 'C13')
_('c_gens', 'C14')
_('c_url', 'C15', 'C16', 'C17')
_('c_containers', 'C18', 'C19', 'C20')
_('c_protocol', 'C21', 'C22')
_('c_http', 'C23', 'C24')
_('c_payload', 'C25', 'C26')
_('c_transport', 'C27', 'C28', 'C29')
_('c_websocket', 'C30', 'C31')
_('c_handshake', 'C32')
_('c_client', 'C33')
_('c_redirect', 'C34')
_('c_cookies', 'C35')
_('c_dns', 'C36', 'C37')
_('c_datagram', 'C38')
_('c_resolve', 'C39')
_('c_process', 'C40')
_('c_zip', 'C41')
_('c_ios', 'C42')
_('c_analyzer', 'C43')
_('c_highlight', 'C44')
_('c_trace', 'C45')
_('c_asyncio', 'C46')
_('c_asyncio', 'C47')
_('c_proxy', 'C48')
_('c_helpers', 'C49')
_('c_helpers', 'C50')
_('c_console', 'C51')
_('c_console', 'C52')
_('c_compound', 'C53')
_('c_reports', 'C54')
_('c_suggest', 'C55')
