"""
User-side model classes of the simulated deployments (what a customer of the library would write).

Every method goes through `touch`, the place where the simulator counts user-code invocations and injects user-code
failures.  Nothing here depends on the internals of the library.
"""
from typing import Dict, Iterator, List, Literal, Optional, Tuple, Type, Any, Union

import math

import plot_data

from dessia_common.core import DessiaObject
from dessia_common.decorators import cad_view, export_decorator, markdown_view, plot_data_view
from dessia_common.files import StringFile, BinaryFile
from dessia_common.measures import Distance
from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue, InstantiatingModelOptimizer
from dessia_common.typings import InstanceOf

TOUCH = None
SPOIL = {}  # what display methods return instead of their own data
REPORTS = [0.25, 0.5, 0.75, 1.0]  # progress the long computation reports


def touch(what, *args):
    """ Seam inside user code. """
    if TOUCH is not None:
        TOUCH(what, args)


class Part(DessiaObject):
    """
    A mechanical part.

    :param a: First quantity
    :param b: Second quantity
    """

    _standalone_in_db = True
    _vector_features = ["a", "b"]

    def __init__(self, a: int, b: int = 1, name: str = ""):
        touch("Part.__init__", a)
        self.a = a
        self.b = b
        super().__init__(name=name)

    @classmethod
    def build(cls, a: int, b: int = 3) -> 'Part':
        """ Build a part. """
        touch("Part.build", a)
        return cls(a=a + 1, b=b, name="built")

    @classmethod
    def unit(cls) -> 'Part':
        """ The standard part: nothing is needed to build it. """
        touch("Part.unit", None)
        return cls(a=2, b=5, name="unit")

    @staticmethod
    def combine(x: int, y: int) -> int:
        """ Combine two quantities (not commutative). """
        touch("Part.combine", x)
        return 3 * x + y

    def total(self, x: int) -> int:
        """ Read-only computation. """
        touch("Part.total", x)
        return self.a * 2 + self.b + x

    def scaled(self, x: int, y: int = 2) -> 'Part':
        """ New part out of this one. """
        touch("Part.scaled", x)
        return Part(a=self.a * y + x, b=self.b + x, name=self.name)

    def tracked(self, x: int, progress_callback=lambda v: None) -> int:
        """ Long computation reporting its own progress. """
        touch("Part.tracked", x)
        for value in REPORTS:
            progress_callback(value)
            touch("Part.tracked.loop", x)
        return self.a - x

    def maybe(self, x: int) -> Optional[int]:
        """ None when there is no answer. """
        touch("Part.maybe", x)
        return None if (self.a + x) % 2 else x

    def deal(self, x: Optional[int]) -> int:
        """ Deals with no answer. """
        touch("Part.deal", x)
        return -1 if x is None else x + self.b

    def bump(self, x: int) -> int:
        """ In-place modification. """
        touch("Part.bump", x)
        self.a += x
        return self.a

    def fan(self, n: int) -> 'List[Part]':
        """ Some parts. """
        touch("Part.fan", n)
        return [Part(a=self.a + i, b=n, name=f"fan{i}") for i in range(3)]

    @export_decorator(selector="txt", extension="txt", is_text=True)
    def export_text(self, stream: StringFile):
        """ Text export. """
        touch("Part.export_text")
        stream.write(f"part a={self.a} b={self.b} (±1 µm)\n")
        return stream

    @export_decorator(selector="bin", extension="bin", is_text=False)
    def export_binary(self, stream: BinaryFile):
        """ Binary export. """
        touch("Part.export_binary")
        stream.write(f"part:{self.a}:{self.b}".encode("utf-8"))
        return stream

    @markdown_view("Sheet", load_by_default=True)
    def sheet(self) -> str:
        """ Markdown display. """
        touch("Part.sheet")
        return SPOIL.get("sheet", f"# Part {self.a}\n\nb = {self.b}")

    @plot_data_view("Plot")
    def plot_view(self, reference_path: str = "#"):
        """ Plot display. """
        touch("Part.plot_view")
        if "plot_view" in SPOIL:
            return SPOIL["plot_view"]
        return plot_data.PrimitiveGroup(primitives=[plot_data.Point2D(float(self.a), float(self.b))], name="plot")

    @cad_view("CAD")
    def cad(self):
        """ 3D display. """
        touch("Part.cad")
        return SPOIL.get("cad", {"meshes": [[self.a, self.b]]})


def part_sources():
    """ Small helper used by generated docs. """
    return ["Part"]


class Crate(DessiaObject):
    """
    A container of parts with mixed content.

    :param content: Whatever is stored.
    """

    _standalone_in_db = True

    def __init__(self, content: Any = None, parts: List[Part] = None, name: str = ""):
        self.content = content
        self.parts = parts
        super().__init__(name=name)


class Node(DessiaObject):
    """ Generic embedded object: free-form payload and children. """

    def __init__(self, value: Any = None, children: List[DessiaObject] = None, props: Dict[str, Any] = None,
                 name: str = ""):
        self.value = value
        self.children = children
        self.props = props
        super().__init__(name=name)


class Root(DessiaObject):
    """ Standalone object referencing others. """

    _standalone_in_db = True

    def __init__(self, items: List[DessiaObject] = None, table: Dict[str, Any] = None, pair: Tuple[int, float] = None,
                 label: str = "", main: DessiaObject = None, name: str = ""):
        self.items = items
        self.table = table
        self.pair = pair
        self.label = label
        self.main = main
        super().__init__(name=name)


class Assembly(DessiaObject):
    """
    An assembly with every kind of documented argument.

    :param part: Main part
    :param parts: Other parts
    :param size: Length and width
    :param table: Named figures
    :param kind: Class of the parts
    :param active: Whether it is used
    """

    _standalone_in_db = True
    _allowed_methods = ["mass", "merge", "read", "mixed"]

    def __init__(self, part: Part, parts: List[Part], kind: Type[DessiaObject], size: Tuple[float, int] = (1.0, 2),
                 table: Dict[str, float] = None, active: bool = True, other: Optional[Part] = None,
                 matrix: List[List[int]] = None, name: str = "assembly"):
        self.part = part
        self.parts = parts
        self.size = size
        self.table = table
        self.kind = kind
        self.active = active
        self.other = other
        self.matrix = matrix
        super().__init__(name=name)

    def mass(self, density: float, scale: int = 2, parts: List[Part] = None) -> float:
        """
        Mass of the assembly.

        :param density: Density
        :param scale: Scale
        """
        touch("Assembly.mass")
        return density * scale * (self.part.a + sum(p.a for p in self.parts + (parts or [])))

    def merge(self, other: Part, sizes: Dict[str, int]) -> 'Assembly':
        """ Assembly with one more part. """
        return Assembly(self.part, self.parts + [other], self.kind, name=self.name)

    def mixed(self, either: Union[Part, Crate], pair: Tuple[Part, int], level: Literal["low", "high"],
              any_part: InstanceOf[Part], many: List[Tuple[int, float]], length: Distance, rows: List[List[Part]],
              flow: Iterator[int], kind: Type[Part], maybe: Optional[List[Part]] = None, one: InstanceOf[DessiaObject] = None,
              loose: Any = None) -> Union[Part, Crate]:
        """
        Everything at once.

        :param either: One or the other
        :param level: How much
        """
        return either

    def read(self, stream: StringFile, file: BinaryFile) -> str:
        """ Read a file. """
        return stream.getvalue()


TRIAL_DEFAULT = 0.125


class Trial(DessiaObject):
    """ A design with free quantities, to be sampled and optimized. """

    _standalone_in_db = True
    _vector_features = ["p0", "p1", "p2", "p3"]

    def __init__(self, p0: float = TRIAL_DEFAULT, p1: float = TRIAL_DEFAULT, p2: float = TRIAL_DEFAULT,
                 p3: float = TRIAL_DEFAULT, name: str = ""):
        self.p0, self.p1, self.p2, self.p3 = p0, p1, p2, p3
        touch("Trial.__init__", self)
        super().__init__(name=name)


class TrialOptimizer(InstantiatingModelOptimizer):
    """ Optimizer of designs; its cost depends on the data of the design only. """

    def __init__(self, fixed_parameters: List[FixedAttributeValue], optimization_bounds: List[BoundedAttributeValue],
                 shape: str = "bowl", targets: Dict[str, List[float]] = None, base: float = 0., name: str = ""):
        self.shape, self.targets, self.base = shape, targets, base
        InstantiatingModelOptimizer.__init__(self, fixed_parameters, optimization_bounds, name=name)

    def instantiate_model(self, attributes_values):
        """ Build the design. """
        return Trial(**attributes_values)

    def objective_from_model(self, model, clearance: float = 0.003):
        """ Cost of a design. """
        touch("TrialOptimizer.objective", model)
        return self.cost(model)

    def cost(self, model) -> float:
        """ Cost of a design: targets give, for each attribute, scale, offset and optimum. """
        total = self.base
        for attribute, (scale, offset, best) in (self.targets or {}).items():
            gap = (getattr(model, attribute) - offset) / scale - best
            total += {"bowl": gap ** 2, "vee": abs(gap), "flat": 0., "step": math.floor(4 * abs(gap)) / 4,
                      "waves": gap ** 2 + 0.3 * (1 - math.cos(9 * gap)), "slope": gap}[self.shape]
        return total

    def optimize_cma(self):
        touch("TrialOptimizer.cma")
        return InstantiatingModelOptimizer.optimize_cma(self)

    def optimize_gradient(self, method: str = 'L-BFGS-B', x0: List[float] = None):
        touch("TrialOptimizer.gradient", x0)
        return InstantiatingModelOptimizer.optimize_gradient(self, method=method, x0=x0)


class Bag(DessiaObject):
    """ An object with free-form data. """

    _standalone_in_db = True

    def __init__(self, number: int, content: Any = None, extra: Any = None, name: str = ""):
        touch("Bag.__init__", number)
        self.number = number
        self.content = content
        self.extra = extra
        super().__init__(name=name)


class Fresh(DessiaObject):
    """ An object that hands out a new list each time. """

    _standalone_in_db = True

    def __init__(self, rows: List[int], columns: List[int], base: int, name: str = ""):
        self._rows, self._columns = tuple(rows), tuple(columns)
        self.base = base
        super().__init__(name=name)

    @property
    def rows(self):
        """ Rows, as a list the caller may modify. """
        return list(self._rows)

    @property
    def columns(self):
        """ Columns, likewise. """
        return list(self._columns)
