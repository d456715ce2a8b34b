def run(rule):
    raise NotImplementedError(rule)
