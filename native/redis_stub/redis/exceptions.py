class ResponseError(Exception):
    pass
