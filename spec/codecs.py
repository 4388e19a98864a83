"""Encoding followed by decoding."""


def there_and_back(encode, decode, x, *context):
    return decode(*context, encode(x))
