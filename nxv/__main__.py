from .core import cli

cli()
