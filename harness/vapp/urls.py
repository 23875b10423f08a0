"""An admin site with every harness model."""

from django.apps import apps
from django.contrib import admin
from django.urls import path

from treebeard.admin import TreeAdmin
from treebeard.forms import movenodeform_factory
from vapp import models

site = admin.AdminSite(name="admin")
guarded = set()


class GuardedAdmin(TreeAdmin):
    def has_change_permission(self, request, obj=None):
        return super().has_change_permission(request, obj) and (obj is None or obj.pk not in guarded)


for model in apps.get_app_config("vapp").get_models():
    try:
        models.kind_of(model)
        is_node = hasattr(model, "node_order_by")
    except Exception:
        is_node = False
    if not is_node:
        continue
    attrs = {"form": movenodeform_factory(model, exclude=("tags", "link", "extra"))}
    dep = getattr(models, model.__name__.replace("Rel", "Dep"), None)
    if model.__name__.endswith("Rel"):
        inline = type(dep.__name__ + "Inline", (admin.TabularInline,), {"model": dep, "extra": 1})
        attrs["inlines"] = [inline]
    site.register(model, type(model.__name__ + "Admin", (GuardedAdmin,), attrs))

urlpatterns = [path("admin/", site.urls)]
