"""What the interpreter uses of the models."""
from .m_bytes import to_str
from .m_data import dict_set, dict_pop, dict_merge, dict_content, list_add, inst_dict, CONTAINER, binop, compare, getitem, contains
from .m_lib import await_ext
from .m_calls import ext_call
from .m_methods import ext_attr, exc_attr, base_attr, call_sym, ext_method, instantiate
