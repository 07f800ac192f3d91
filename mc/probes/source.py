"""A reader which creates a given number of documents."""
from mc.probes import probe


class Source(probe.Probe):
    """Create the number of documents given by parameter `docs`."""

    def __init__(self, docs=1, **kwargs):
        super().__init__(docs=docs, **kwargs)
        self.left = docs

    @property
    def finished(self):
        """Have all documents been created?"""
        return self.left <= 0

    def apply_on_document(self, document):
        super().apply_on_document(document)
        if self.left > 0:
            document.create_bundle()
        self.left -= 1
        document.meta['n'] = (document.meta.get('n') or ()) + (self.number,)
