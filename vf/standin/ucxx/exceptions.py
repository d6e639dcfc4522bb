class UCXError(Exception):
    pass


class UCXCanceledError(UCXError):
    pass


class UCXConnectionResetError(UCXError):
    pass


class UCXMessageTruncatedError(UCXError):
    pass


class UCXUnreachableError(UCXError):
    pass
