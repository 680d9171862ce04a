from KratosMultiphysics import _names
__getattr__ = _names(__name__)
