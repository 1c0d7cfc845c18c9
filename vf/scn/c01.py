from .common import pl
