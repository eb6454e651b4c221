"""Stand-ins for the little that kajiki.integration.pyramid needs of Pyramid.

Pyramid itself is not installed here. They follow its documentation: an asset
specification is "package:path" or an absolute path, settings may be strings.
"""
import os
import sys
import types


def asbool(v):
    if isinstance(v, str):
        v = v.strip().lower()
        if v in ('true', 'yes', 'on', 'y', 't', '1'):
            return True
        if v in ('false', 'no', 'off', 'n', 'f', '0'):
            return False
        raise ValueError('String is not true/false: %r' % v)
    return bool(v)


def abspath_from_resource_spec(spec, pname='__main__'):
    if spec is None or os.path.isabs(spec):
        return spec
    pkg, path = spec.split(':', 1) if ':' in spec else (pname, spec)
    __import__(pkg)
    return os.path.join(os.path.dirname(os.path.abspath(sys.modules[pkg].__file__)), path)


def implementer(*a):
    return lambda cls: cls


def install():
    try:
        import pyramid.interfaces       # noqa: F401
        return
    except ImportError:
        pass
    for name, attrs in (
            ('paste', {}), ('paste.deploy', {}), ('paste.deploy.converters', {'asbool': asbool}),
            ('zope', {}), ('zope.interface', {'implementer': implementer}), ('pyramid', {}),
            ('pyramid.interfaces', {'IRenderer': object, 'ITemplateRenderer': object}),
            ('pyramid.settings', {'asbool': asbool}),
            ('pyramid.resource', {'abspath_from_resource_spec': abspath_from_resource_spec}),
            ('pyramid.path', {}), ('pyramid.asset', {
                'abspath_from_asset_spec': abspath_from_resource_spec})):
        m = sys.modules.get(name)
        if m is None:
            m = types.ModuleType(name)
            m.__path__ = []
            sys.modules[name] = m
        for k, v in attrs.items():
            setattr(m, k, v)
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            setattr(sys.modules[parent], leaf, m)


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Config(object):
    """What includeme() is given."""

    def __init__(self, settings):
        self.registry = Thing()
        self.registry.settings = settings
        self.settings = settings
        self.renderers = []

    def get_settings(self):
        return self.settings

    def add_renderer(self, name, factory):
        self.renderers.append((name, factory))
