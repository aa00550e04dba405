""" A second user package: a class with the same name as one of the first, and other arguments. """
from typing import Any

from dessia_common.core import DessiaObject

from simkit import models


class Part(DessiaObject):
    """ A part, as another team describes it. """

    _standalone_in_db = True

    def __init__(self, reference: int, b: int = 2, supplier: str = "", name: str = ""):
        self.reference = reference
        self.b = b
        self.supplier = supplier
        super().__init__(name=name)


class Keyed(DessiaObject):
    """ An object whose arguments are mostly keyword-only. """

    def __init__(self, code: int, *, grade: int = 3, tags: Any = None, name: str = ""):
        self.code = code
        self.grade = grade
        self.tags = tags
        super().__init__(name=name)

    def to_dict(self, *args, **kwargs):
        """ As its base class does. """
        models.touch("Keyed.to_dict")
        return super().to_dict(*args, **kwargs)
