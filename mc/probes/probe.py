"""A block which records how it has been created and called."""
from udapi.core.block import Block

LOG = []


class Probe(Block):
    """Record all calls to LOG."""

    def __init__(self, **kwargs):
        super().__init__()
        self.kwargs = kwargs
        self.number = sum(1 for event in LOG if event[0] == 'new')
        LOG.append(('new', 'Probe', kwargs))

    def process_start(self):
        LOG.append(('start', self.number))

    def process_end(self):
        LOG.append(('end', self.number))

    def apply_on_document(self, document):
        LOG.append(('document', self.number, document.meta.get('n'), len(document.bundles)))
        if self.kwargs.get('fail') == 'yes':
            raise ZeroDivisionError
