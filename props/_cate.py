"""stand-in for the parts of `cate` (not installed here) which the command line and the web service build on"""
import argparse
import sys
import types


def install():
    if 'cate' in sys.modules:
        return

    class CommandError(Exception):
        def __init__(self, cause, *a):
            super().__init__(str(cause), *a)
            self.cause = cause

    class Monitor:
        def starting(self, label, total_work=None):
            import contextlib
            return contextlib.nullcontext(self)

        def start(self, label, total_work=None):
            pass

        def progress(self, work=None, msg=None):
            pass

        def done(self):
            pass

        def child(self, work):
            return self

        def is_cancelled(self):
            return False
    Monitor.NONE = Monitor()

    class Command:
        @classmethod
        def name(cls):
            raise NotImplementedError

        @classmethod
        def parser_kwargs(cls):
            return {}

        @classmethod
        def configure_parser(cls, parser):
            pass

        def execute(self, command_args):
            raise NotImplementedError

        @classmethod
        def new_monitor(cls):
            return Monitor()

    class SubCommandCommand(Command):
        @classmethod
        def configure_parser(cls, parser):
            cls.configure_parser_and_subparsers(parser, parser.add_subparsers(metavar='COMMAND'))

    class Parser(argparse.ArgumentParser):
        def error(self, message):
            raise CommandError('usage: ' + message)

        def exit(self, status=0, message=None):
            raise CommandError('exit %s' % status)

    def run_main(name, description, version, command_classes, license_text=None, docs_url=None,
                 error_message_trimmer=None, args=None):
        parser = Parser(prog=name)
        sub = parser.add_subparsers(dest='command_name', metavar='COMMAND')
        for c in command_classes:
            p = sub.add_parser(c.name(), **c.parser_kwargs())
            c.configure_parser(p)
            p.set_defaults(command_class=c)
        try:
            a = parser.parse_args(args)
            a.command_class().execute(a)
        except CommandError as e:
            return 1
        return 0

    mods = {n: types.ModuleType(n) for n in ('cate', 'cate.util', 'cate.util.cli', 'cate.util.monitor')}
    for m in ('cate', 'cate.util'):
        mods[m].__path__ = []
    for k, v in dict(run_main=run_main, Command=Command, SubCommandCommand=SubCommandCommand,
                     CommandError=CommandError).items():
        setattr(mods['cate.util.cli'], k, v)
    mods['cate.util.monitor'].Monitor = Monitor
    sys.modules.update(mods)
