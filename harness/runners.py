"""Runners that look at more than the tree rows."""

from drive import Runner


class DependentRows(Runner):
    """Every node gets rows that cascade from it; they must exist for exactly the stored nodes."""

    def extra(self, ev, ctx, result, res):
        from vapp import models

        kind = self.tree.kind.upper()
        dep = getattr(models, kind + "Dep")
        if ev["o"].startswith("add") and res == "none":
            dep.objects.create(node_id=result.pk)
            if ev["n"] % 2:
                dep.objects.create(node_id=result.pk)
            tag = models.Tag.objects.create(name=str(ev["n"]))
            result.tags.add(tag)
        alive = {r["id"] for r in ev["rows"]}
        deps = {ctx.ids.get(pk, 900) for pk in dep.objects.values_list("node_id", flat=True)}
        through = self.tree.model.tags.through
        field = self.tree.model._meta.model_name + "_id"
        tags = {ctx.ids.get(pk, 900) for pk in through.objects.values_list(field, flat=True)}
        ev["dep"] = deps == alive and tags == alive
