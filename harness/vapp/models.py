"""The harness models: every tree type, in the variants whose code paths differ."""

import uuid

from django.conf import settings
from django.db import models

from treebeard.al_tree import AL_Node, AL_NodeManager
from treebeard.mp_tree import MP_Node, MP_NodeManager
from treebeard.ns_tree import NS_Node, NS_NodeManager


class Fields(models.Model):
    a = models.IntegerField(default=0)
    b = models.IntegerField(default=0)
    name = models.CharField(max_length=40, default="", blank=True)

    class Meta:
        abstract = True

    def __str__(self):
        return f"node {self.name}"


class StrFields(models.Model):
    """Ordering by a string and, descending, by a date."""

    KEYMODE = "str"
    a = models.CharField(max_length=8)
    b = models.DateField()
    name = models.CharField(max_length=40, default="", blank=True)

    class Meta:
        abstract = True


class DescFields(Fields):
    """Ordering by three fields."""

    KEYMODE = "desc"
    c = models.IntegerField(default=0)

    class Meta:
        abstract = True


class Tag(models.Model):
    name = models.CharField(max_length=20)


# ---------------------------------------------------------------- materialized path
class MP(MP_Node, Fields): ...


class MPSmall(MP_Node, Fields):
    steplen = 1
    alphabet = "0123456789"


class MPBin(MP_Node, Fields):
    steplen = 3
    alphabet = "01"


class MPTri(MP_Node, Fields):
    steplen = 2
    alphabet = "012"


class MPShort(MP_Node, Fields):
    steplen = 1
    alphabet = "0123456789"
    path = models.CharField(max_length=4, unique=True)


class MPTiny(MP_Node, Fields):
    steplen = 1
    alphabet = "012345"
    path = models.CharField(max_length=3, unique=True)


class MPWild(MP_Node, Fields):
    """Characters that mean something to LIKE."""

    steplen = 2
    alphabet = "%0123456789A_"


class MPSorted(MP_Node, Fields):
    node_order_by = ["a", "-b"]


class MPSortedStr(MP_Node, StrFields):
    steplen = 2
    alphabet = "0123456789"
    node_order_by = ["a", "-b"]


class MPSortedDesc(MP_Node, DescFields):
    steplen = 3
    alphabet = "01"
    node_order_by = ["-a", "b", "-c"]


class MPSortedTiny(MP_Node, Fields):
    steplen = 1
    alphabet = "012345"
    path = models.CharField(max_length=3, unique=True)
    node_order_by = ["a", "-b"]


class MPUuid(MP_Node, Fields):
    uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)


class MPChild(MP):
    extra = models.IntegerField(default=7)


class MPProxy(MP):
    class Meta:
        proxy = True


class MPSortedChild(MPSorted):
    extra = models.IntegerField(default=7)


class MPRel(MP_Node, Fields):
    tags = models.ManyToManyField(Tag, blank=True)
    link = models.ForeignKey(Tag, null=True, blank=True, on_delete=models.SET_NULL, related_name="+")


class MPDep(models.Model):
    node = models.ForeignKey(MPRel, on_delete=models.CASCADE)
    size = models.IntegerField(default=1)


class MPGuard(models.Model):
    node = models.ForeignKey(MPRel, on_delete=models.PROTECT)


# ---------------------------------------------------------------- nested sets
class NS(NS_Node, Fields): ...


class NSSorted(NS_Node, Fields):
    node_order_by = ["a", "-b"]


class NSSortedStr(NS_Node, StrFields):
    node_order_by = ["a", "-b"]


class NSSortedDesc(NS_Node, DescFields):
    node_order_by = ["-a", "b", "-c"]


class NSUuid(NS_Node, Fields):
    uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)


class NSChild(NS):
    extra = models.IntegerField(default=7)


class NSProxy(NS):
    class Meta:
        proxy = True


class NSSortedChild(NSSorted):
    extra = models.IntegerField(default=7)


class NSRel(NS_Node, Fields):
    tags = models.ManyToManyField(Tag, blank=True)
    link = models.ForeignKey(Tag, null=True, blank=True, on_delete=models.SET_NULL, related_name="+")


class NSDep(models.Model):
    node = models.ForeignKey(NSRel, on_delete=models.CASCADE)
    size = models.IntegerField(default=1)


class NSGuard(models.Model):
    node = models.ForeignKey(NSRel, on_delete=models.PROTECT)


# ---------------------------------------------------------------- adjacency list
class ALBase(AL_Node, Fields):
    parent = models.ForeignKey("self", related_name="+", null=True, blank=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()

    class Meta:
        abstract = True


class ALSortedBase(AL_Node, Fields):
    parent = models.ForeignKey("self", related_name="+", null=True, blank=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["a", "-b"]

    class Meta:
        abstract = True


class AL(ALBase): ...


class ALSorted(ALSortedBase): ...


class ALSortedStr(AL_Node, StrFields):
    parent = models.ForeignKey("self", related_name="+", null=True, blank=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["a", "-b"]


class ALSortedDesc(AL_Node, DescFields):
    parent = models.ForeignKey("self", related_name="+", null=True, blank=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["-a", "b", "-c"]


class ALUuid(ALBase):
    uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)


class ALChild(AL):
    extra = models.IntegerField(default=7)


class ALProxy(AL):
    class Meta:
        proxy = True


class ALSortedChild(ALSorted):
    extra = models.IntegerField(default=7)


class ALRel(ALBase):
    tags = models.ManyToManyField(Tag, blank=True)
    link = models.ForeignKey(Tag, null=True, blank=True, on_delete=models.SET_NULL, related_name="+")


class ALDep(models.Model):
    node = models.ForeignKey(ALRel, on_delete=models.CASCADE)
    size = models.IntegerField(default=1)


class ALGuard(models.Model):
    node = models.ForeignKey(ALRel, on_delete=models.PROTECT)


# ---------------------------------------------------------------- ltree (PostgreSQL only)
if settings.HARNESS_PG:
    from treebeard.ltree import LT_Node, LT_NodeManager  # noqa: F401

    class LT(LT_Node, Fields): ...

    class LTSorted(LT_Node, Fields):
        node_order_by = ["a", "-b"]

    class LTSortedStr(LT_Node, StrFields):
        node_order_by = ["a", "-b"]

    class LTSortedDesc(LT_Node, DescFields):
        node_order_by = ["-a", "b", "-c"]

    class LTUuid(LT_Node, Fields):
        uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)

    class LTChild(LT):
        extra = models.IntegerField(default=7)

        class Meta:
            constraints = []

    class LTProxy(LT):
        class Meta:
            proxy = True

    class LTSortedChild(LTSorted):
        extra = models.IntegerField(default=7)

        class Meta:
            constraints = []

    class LTRel(LT_Node, Fields):
        tags = models.ManyToManyField(Tag, blank=True)
        link = models.ForeignKey(Tag, null=True, blank=True, on_delete=models.SET_NULL, related_name="+")

    class LTDep(models.Model):
        node = models.ForeignKey(LTRel, on_delete=models.CASCADE)
        size = models.IntegerField(default=1)

    class LTGuard(models.Model):
        node = models.ForeignKey(LTRel, on_delete=models.PROTECT)


def family(name, kind):
    """More models on the tree of a model: inherited in other ways, and proxies of all of them."""
    here = globals()

    def make(suffix, base, proxy=False, **fields):
        meta = {"proxy": True} if proxy else {"constraints": []} if kind == "LT" else {}
        here[name + suffix] = type(name + suffix, (here[name + base],), {"__module__": __name__, "Meta": type("Meta", (), meta), **fields})

    make("Other", "", other=models.IntegerField(default=3))
    make("Grand", "Child", grand=models.IntegerField(default=5))
    if name + "Proxy" not in here:
        make("Proxy", "", proxy=True)
    make("Proxy2", "Proxy", proxy=True)
    make("ChildProxy", "Child", proxy=True)


for kind in ("MP", "NS", "AL", *(["LT"] if settings.HARNESS_PG else [])):
    family(kind, kind)
    family(kind + "Sorted", kind)


def kind_of(model):
    """(kind of tree, a field that the model owning the tree declares)"""
    if issubclass(model, MP_Node):
        return "mp", "path"
    if issubclass(model, NS_Node):
        return "ns", "lft"
    if issubclass(model, AL_Node):
        return "al", "parent"
    return "lt", "path"
