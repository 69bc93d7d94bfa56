"""What operations report: log messages and warnings, and the numbers in them."""
import logging
import re
import warnings


class Reports(logging.Handler):
    """Context that collects the messages of toron, also with logging disabled."""
    def __enter__(self):
        self.texts = []
        self.logger = logging.getLogger('app-toron')
        self.old = self.logger.level, self.logger.propagate, logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.logger.setLevel(logging.DEBUG)
        self.logger.propagate = False
        self.logger.addHandler(self)
        self.caught = warnings.catch_warnings()
        self.caught.__enter__()
        warnings.simplefilter('always')
        warnings.showwarning = lambda message, *a, **k: self.texts.append(str(message))
        return self

    def emit(self, record):
        self.texts.append(record.getMessage())

    def __exit__(self, *exc):
        self.caught.__exit__(*exc)
        self.logger.removeHandler(self)
        level, propagate, disable = self.old
        self.logger.setLevel(level)
        self.logger.propagate = propagate
        logging.disable(disable)

    def clear(self):
        self.texts = []

    def number(self, pattern):
        """Sum of the numbers reported with this pattern (no report: 0)."""
        return sum(int(n) for t in self.texts for n in re.findall(pattern, t))

    def tells(self, pattern):
        return any(re.search(pattern, t) for t in self.texts)
