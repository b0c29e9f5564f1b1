// Written by tools/gen_huge.cpp from lib/ref.cpp alone (hashes cross-checked with hashlib).
#pragma once
namespace huge
{
    inline const char* const x_hash[7][4] = {
        {"\xa5\xc2\x47\x7c\x62\x41\x40\x54\x86\xb5\x20\x2a\x16\xc6\x2a\x02\x23\xcc\x79\x8b",
         "\x03\xbf\x11\xf1\xcd\x66\x6c\x61\xc6\x1c\xb9\x41\x31\xc2\x71\xde\x52\x85\xd4\xc3",
         "\x89\x3f\x70\x2d\x8f\x1b\x05\x30\x2c\xc2\x9f\x5e\x14\x8e\xe2\x9f\x77\x13\x42\x11",
         "\xac\x8d\x9f\xf1\x9d\xf9\xab\x72\x44\xe7\x9b\x4d\xb3\xe1\xe8\x44\x2f\x1a\x3f\x02"},
        {"\x03\xb1\x84\x2d\xa5\x4d\x2e\xab\xac\x14\x80\x20\x5e\x11\x8b\x55\xa3\x4f\x21\x9b\x38\x14\x51\x20\x16\x94\xa9\xd1",
         "\x81\xf9\x81\x71\x97\x67\xc5\x6f\xdd\x52\xe3\xfa\xa7\x97\x32\xc9\xff\xc8\xef\x25\x64\x15\x14\x02\x98\x87\x76\xe8",
         "\x6e\x75\xf5\xdd\x61\x5e\x62\xd0\x8c\x56\x0b\x49\x01\x96\x35\x3a\xbc\x8e\xfd\xbc\x46\x8d\xce\x57\xea\x17\x31\xdb",
         "\x4a\x7d\x3c\x09\x48\x83\xcb\x8c\xc1\xd5\x64\x94\xca\xfc\x38\xe9\x1b\x77\xcd\xaa\x33\xc0\x8f\xd9\x69\x09\x95\xc7"},
        {"\x92\x3b\xd5\x7b\x3d\xe6\x1b\x93\x65\x37\x9c\xb8\xe1\x65\x3e\xb3\x56\x84\xd7\x54\xf6\x52\xd2\xcd\xa6\x4b\x76\xa8\x0a\xd0\x79\x8a",
         "\xf6\xe8\x75\x45\x1c\x81\x6c\x19\xf1\x47\x1c\xdb\x7a\xf4\xdc\xf0\x1e\xc0\xcc\x4f\x39\x74\x65\xa9\x42\x70\x72\xd0\x19\x27\x93\x55",
         "\x44\x4b\xce\x37\x63\xd7\xe4\xaf\xd2\xa0\xb5\x91\x9f\x69\x35\x43\x12\x6f\x9b\xa6\xc4\xe4\xb0\xff\xf6\x6b\x44\x32\xd6\x65\x19\xd2",
         "\xb1\x9c\xa3\x77\xb8\x40\x91\x34\x89\x1b\xd7\x75\xe5\x1a\x3a\x61\x36\xf9\x47\x43\x2f\x15\xb3\xdb\x85\x86\x5f\xe7\x54\xc8\x67\xcc"},
        {"\xba\x26\xe8\x03\xaf\x0f\xa9\xb7\x47\x3e\x60\xaf\x12\xcd\x6b\xe0\x10\x89\x8c\xb1\xce\x23\x72\x36\x6d\x91\xbf\x60\xaf\x96\x85\xc9\xef\xe3\x9b\x4e\x26\x4c\x7b\x6e\x1f\x69\x20\x67\xf2\x8d\x34\xc5",
         "\xbe\xca\xb6\xad\x47\x65\x45\x5f\x9c\x65\x26\x78\x98\x1b\x79\xed\xa8\x1b\xa2\xae\x63\x37\x8d\x57\x15\xb2\x28\xf7\xab\x35\xe0\xe3\x6b\xb9\x0e\x94\xbe\x8e\x87\x63\x22\x9c\x93\x91\x8d\x94\x3d\xd1",
         "\x7a\xf7\x22\xe7\xc8\x09\xc7\xea\x7d\xd1\xf8\xfa\xc8\xb6\xa0\xce\x05\xb4\xbb\xce\x66\x38\x90\xb7\x33\x63\x28\x5a\xfe\xb3\xe9\x1e\x6e\x5e\x8f\x88\xbf\x39\x54\x79\x89\xa4\xd3\xb9\x66\x6e\xb6\x53",
         "\x0e\xbe\x0e\xd2\x05\x83\x44\xf9\x18\x1b\x7e\x91\x4c\x61\xe0\xbe\x16\xcd\x94\xb7\x80\x29\xdb\x0a\x41\xe1\x41\x24\x44\x12\x92\x08\x16\xfe\xf7\xdc\x8f\x2f\x65\x12\x84\x66\x2e\x82\x4b\x85\x77\xf8"},
        {"\xc6\xaa\xe5\x78\x19\xde\x8e\x2a\xaa\x18\x9a\x80\x76\xa6\xd5\x65\x13\x16\x34\xac\x99\x1e\x64\x99\x4f\x4e\x50\xf8\xfd\x5b\x11\x97\x83\x47\xa2\xe5\xe3\x93\x6a\xc4\xdf\x0c\x55\xaa\xe6\xaa\xde\xf7\xc9\x30\x45\x07\x2b\xdd\x9c\xba\x46\x15\xb9\x91\x51\xe6\x65\x82",
         "\x41\x28\x52\x19\x42\x38\x88\xc4\xcc\x12\x90\x91\x7c\x05\xe3\xc1\x1d\x5f\xf7\x99\x7d\xd7\xd6\xcb\xb5\x3f\x01\x34\x26\xe2\x32\x12\x8e\xcb\x1f\x92\xc4\x44\x43\x4d\x12\x5e\x9d\x5e\x2a\x7d\x76\xd1\x95\xf8\xbf\xba\xe9\x43\x5c\x52\xed\x8e\xa9\x31\xcf\x5d\xfa\x9e",
         "\xb1\x5f\x56\x69\x3a\xe0\x04\x20\x1e\xbe\x38\xb1\xbd\xfa\x1e\x13\x92\xe3\x42\xf7\x8c\x7c\xd9\x74\x1b\xd6\xf2\xd1\xcf\x1f\xea\x46\x35\x10\x42\x85\x54\x11\xab\xc3\xa0\x17\x30\x78\xff\x2e\xfc\x56\xe2\x6c\xeb\x38\x18\xae\x7e\xaa\x6b\x4d\x2a\x4a\x76\x0f\xc7\xe9",
         "\x70\x7e\x0d\x02\xe2\xaf\x5d\x33\x0d\x80\x73\xfd\x37\x2b\x8e\x0c\x92\xce\xa6\x24\xbc\xef\x9a\x0f\xd8\x0f\x9b\xd3\xb4\x51\xe5\xc2\xfa\xd8\x19\xb2\x1a\x38\x87\xb6\xed\x95\x9a\xd2\x52\xe5\x5d\xd9\x79\xa1\xa1\xe3\xae\xd0\x85\xe8\xe5\xd9\x4e\x42\xdc\x99\x0e\x1f"},
        {"\xe2\x78\x0c\x60\x2a\x21\xc1\xc8\x45\xe6\x38\x59\x39\xa8\x48\x67\x5d\xce\xbe\xb1\x74\x3c\xcd\xd0\xce\xe7\x1f\x7a",
         "\x2e\x20\x51\x6d\xb9\x40\xb3\xa1\x8b\xba\xc4\x08\x61\xd0\xff\x4b\xec\xcc\x25\x15\x99\xad\xe3\x97\xb2\xc8\x24\x4b",
         "\xa4\x26\xef\xd8\x70\x0c\x45\x87\x60\x58\x83\x35\x2c\x0c\xf0\xee\x1e\x5b\x22\x02\xfb\x1c\xd8\x01\x4d\x20\xa0\xda",
         "\x87\x4f\x1b\xa9\xa4\xdf\x9e\xab\xc4\x85\x5f\x2d\x32\x29\xf7\x20\xd1\xba\xa6\x24\xbf\x32\x63\x78\xb0\x27\x4d\xb9"},
        {"\xdf\x58\x0b\xb6\x0b\x88\xfd\x71\xf5\x25\x08\x17\x36\xcc\xfb\xa0\xbb\x93\x0a\xdb\xc8\x0b\xf2\x34\x14\xc0\xf2\xf7\xe8\x0f\x9d\x34",
         "\x58\x16\x16\xd6\x71\x71\xfb\x76\x0a\xa0\xf2\xe5\x63\xb7\x72\xe5\x81\x7f\xb9\x49\xc7\x30\xf1\x80\x10\xad\x55\xb5\xc8\xd9\x75\x72",
         "\x5c\xc0\x8a\xee\xbc\x02\x5d\x8c\x86\xee\xd5\xb0\x85\x70\xf6\x0d\xf4\xac\x4d\xfc\x68\x42\x77\xa9\xe5\x23\x12\x35\x13\x8c\xee\x2e",
         "\xcd\x5f\xd0\xac\xcc\xda\x05\xbe\xdd\x03\xdf\x79\xe3\xd1\x3c\x9b\x10\x87\x73\xd9\xc8\xc1\x0f\xc8\xfa\x6c\xd4\x38\x7b\xce\x73\x81"},
    };
    inline const char* const x_hmac[7][4] = {
        {"\xd0\xc5\x44\xdc\xd9\xbb\x9f\x74\x5c\x4e\x6e\xe1\xe6\xb2\xfa\x30\x4f\x24\x1f\x1b",
         "\xfe\x81\x1e\xa1\x76\x1e\xa0\x21\xf3\x5b\x14\x3f\x7f\x11\xc7\x12\x7a\x48\xa3\x85",
         "\x96\x4b\x64\x95\x0b\x5b\x6e\xeb\xc2\x5a\xc0\x32\x75\x39\x53\x2a\x3b\xb2\x83\x71",
         "\xf2\x92\x91\xc6\xf7\x1e\xe2\x3b\xa5\x23\xac\x53\xce\xa6\x59\xcc\xbf\x6c\x44\x91"},
        {"\xed\xcd\x08\xbb\x0c\x25\x6a\xc0\x4f\x8e\x97\x53\x30\xe9\xca\xcd\xc2\xfb\xd1\x3f\x0d\xcf\x25\x0c\x77\x60\xf4\xf5",
         "\xf5\xd8\x0f\x20\xa9\x37\x4b\x7e\xfa\x19\x6a\xcf\xf0\x84\xaf\x42\xa8\x06\x37\xa2\x3e\x40\x3e\xf8\xd0\x4d\xa0\x85",
         "\x3e\xa5\x75\x87\xa4\xdc\x9e\xf3\xc3\xc1\xc7\x0b\xae\x85\x19\x9c\x46\x3f\x2d\x7b\x36\xb6\x7d\xc2\x7e\xda\x63\x08",
         "\xac\xc1\xb6\x87\x13\xc2\x9c\x47\xf5\x43\xb1\x26\xb6\xf4\x72\xf8\xe6\x43\xa2\x51\xb0\xcc\xf7\x0d\x57\x01\xa2\x17"},
        {"\x41\x27\x4c\x55\x18\x7c\x90\xb3\x35\x0d\xa6\x5a\x39\xcf\xd6\x61\x5e\x60\xc3\xa7\xa7\x15\x62\xcb\x8a\xfc\x46\xae\x3c\xeb\x6a\x1e",
         "\xd5\xdd\xc1\x4d\x7e\x59\x9b\x26\x2d\xf1\xf9\x6a\x72\x91\x93\xa7\x3b\xc0\x54\x32\xc8\x4c\x48\x8d\x64\xd6\x89\xb9\x4d\xa3\x69\x2b",
         "\x44\x34\x2d\x51\x21\x72\xa8\xce\xf6\x18\x38\xa9\xd4\xe2\xde\x6b\xbe\x02\xab\x36\xc1\x1d\xbc\x8e\xec\xcf\xe8\xab\xb2\x80\xee\x97",
         "\x63\x8c\x53\x94\x50\xd1\x27\x36\xf2\x5a\x74\x62\x99\x07\xfa\xc9\x3b\x7a\xef\x28\x33\x55\x28\xc0\x01\x82\x61\x52\x62\xfc\xd0\xe6"},
        {"\x30\x66\x86\x76\x22\xc1\x67\xcd\xaf\xfa\x7c\x2f\xe8\x1c\x71\x60\x4e\x37\x80\xe3\x83\xce\x9e\x3d\xc3\xda\xe7\x77\x04\xe0\x44\x27\x2d\xaa\x67\x36\x30\x59\x7a\x89\xbe\xbe\x18\xb0\x34\x8a\x1b\x49",
         "\xd0\xa9\xaa\xc7\x38\x78\x59\x3e\xc2\x80\xa4\x67\xb3\xb6\x5e\x69\x1f\x7b\x8b\x44\xc9\xe7\xcb\x92\x4d\xbc\x36\xb4\xa6\x2d\x80\x08\x29\xe5\xdd\x23\x20\x7f\x65\x2d\x9c\x53\x7d\xfc\x71\x70\x60\x9f",
         "\x42\xa5\xf4\x02\xdb\xb1\xd5\xfa\x9c\xb7\x3e\x34\x7b\x23\x5d\xb0\x6f\x4b\x2a\xf9\xcb\x37\x3a\x47\xc6\xcf\xb5\x97\xb5\x41\x76\x65\x06\xb3\x61\x75\x47\x3e\x12\x83\x96\x43\x2f\x64\xbf\xfa\xae\x7c",
         "\x5a\xe6\xb3\xcd\x9d\xee\x4c\x2e\x9d\x75\x05\x4d\xa9\x06\x87\x13\x32\xd5\xb8\xa3\x71\xda\xc9\xe6\x0d\x71\xd2\x3d\x61\xaf\xeb\xed\xf7\x55\x23\x6f\xad\x7b\x31\xd8\x2b\x8d\xf7\xc8\xb5\x9d\xd5\x5a"},
        {"\xe1\xcd\x87\x15\x3a\xfd\xae\x68\xa3\x6f\xae\x0e\x25\x75\x52\x0d\x2c\x39\x19\xb1\xe2\x20\x21\xc2\x4e\xc1\x11\x91\xda\x0e\xee\xb2\x0b\x64\xbf\xaa\x9c\x5a\x53\xd9\xa1\xde\x98\xab\x1e\x1f\x64\xfc\x28\xf9\xac\x22\x61\x4c\x78\x25\x97\xc3\x0d\x6b\xd9\xce\xba\x76",
         "\x4c\xe6\x6c\xe4\xb4\x55\xb8\xb6\xee\xcd\xba\x7a\x21\x36\x3e\x1b\xa9\x2c\x04\x25\x19\xa6\x0d\xed\x5e\x87\x6a\xc5\x2e\x47\xfd\x44\x51\x7d\x28\x9a\xee\x8e\x2d\x03\x67\x8e\x52\x53\x28\xe9\xf2\x0f\x8b\x04\x65\x93\xa8\x58\xbb\x16\x11\x62\x10\x46\x4e\x3a\x3b\xe6",
         "\xc9\xb8\x9a\xd9\xa6\xa4\xd9\x53\xf1\xe7\x94\x2f\xab\xa4\x13\x39\xd1\xcf\x6e\x2b\x2e\x6b\x76\x8e\x8b\x91\xa6\x93\x90\x7b\x19\xcb\x79\x11\xa9\x4e\xd8\x26\x62\x61\xa5\xb1\xe6\x54\x27\x27\x1e\x0c\x27\x0d\x43\xc7\x04\x05\x40\x74\x1a\x19\xeb\xdf\x89\x2e\x88\x5b",
         "\x85\xc6\xe4\x14\xac\x09\x72\xd2\x6b\xd3\x51\xe5\x72\xc6\xd2\xff\x92\x73\xc9\x17\xd3\x69\xee\x90\x00\x0e\x73\x2c\x81\xd8\xcd\xba\xf4\x85\x3e\xfc\x93\x86\x04\x82\xaa\x84\xa1\x78\x63\xca\x3b\xd1\x08\x2f\x97\x17\xa1\x41\xce\x17\x42\xf7\x51\xb5\x09\x96\x3e\xe8"},
        {"\xb9\x62\xfc\x7d\xaf\x8b\x1a\xa3\xd0\x97\x4d\x3f\xe6\xa9\x1d\x75\x89\x9a\xb4\xe8\x78\xc5\x60\xe3\x48\x82\xf7\xa4",
         "\xdc\x43\xfd\x88\x0c\xa8\xa7\x3f\x71\x6b\xab\x3b\xfc\x41\xa8\x96\x70\xe3\xf8\x07\x00\x24\x7e\x3f\xdd\x33\x25\x45",
         "\x63\x51\x91\x2e\xee\xbb\x10\xf5\x7b\x11\x04\x81\x62\x77\x97\x23\xbe\x92\x58\x8a\x67\x65\xb3\xa5\xe1\xe9\x10\x53",
         "\x24\x5e\xfd\x6f\x47\xbf\x4b\xcf\xb5\xe0\x26\x8a\x4f\xd2\x0b\xd3\x80\x27\x23\x5f\x35\x03\xed\x44\xb0\x20\xb6\x29"},
        {"\x84\x69\xaf\x6c\xaa\x42\x62\x84\x95\xe0\x55\xe1\x24\xa5\x02\x29\x8d\x29\x99\x9d\x49\xf4\x06\xbd\x67\x82\xb9\x6d\x5b\x31\x09\x0e",
         "\xf8\x1d\x3f\x30\x79\x68\x9e\x86\xc2\x0f\xf4\x33\x0e\x6b\x28\xe4\x17\x4d\xb1\x3c\x65\xf2\x2b\x59\x36\x59\x17\x87\x1d\xcd\x8b\x14",
         "\x0e\xa5\x9a\x68\x02\x0d\x0b\x18\xb9\x77\x05\xff\x9f\x68\x2e\x90\xa3\x90\xe9\x80\xbb\xfa\x54\x35\x5f\x12\xfe\xc8\x73\x49\x1c\xfd",
         "\xea\x11\x8b\x29\xdb\x3a\x0a\xc3\xa4\x0b\x8f\xe5\x20\x4f\xd2\x42\xd4\xfc\xb6\xed\x91\x2b\x3e\x4e\xae\x49\xae\x5e\x75\x22\x1b\x89"},
    };
    inline const char* const x_poly[1][4] = {
        {"\x36\x36\x84\xa4\xa2\x6b\xd8\x7a\x55\xb2\xe9\x1b\x76\x19\x17\x6a",
         "\x02\x6c\xdb\x7f\xf4\x40\x9e\x25\xc1\x82\x82\x84\xe6\x72\x80\x4e",
         "\x3e\xb3\x8f\x9b\x7e\x34\xec\x14\xe4\xc0\x7d\x09\x27\xef\xad\x60",
         "\xc2\x45\x6e\xb2\x83\x89\xc4\xec\x86\x22\xcc\x21\x51\xd5\x57\x65"},
    };
    inline const char* const x_aad[1][4] = {
        {"\x0c\x4e\x49\x1e\xd4\x16\xca\xa7\x33\x43\x5b\x43\xed\x52\xa2\xcd",
         "\xb6\x6d\xd9\x6f\xc8\x01\xd1\x17\x38\x56\xd4\xc6\xeb\x7a\xb2\x31",
         "\x3f\x08\xf1\xc8\x36\xf4\xca\x30\x2e\xba\x33\xdb\x18\x4d\x07\x33",
         "\x82\x73\x33\x81\x06\x63\x22\xf6\xfd\xf9\xa7\x23\xa8\xf8\x90\x27"},
    };
    inline const char* const x_text[1][4] = {
        {"\x12\xd2\xa8\x99\x0d\xc1\x57\xe9\x1c\xba\xc7\xab\x71\xbe\x46\xd3",
         "\x30\x10\x22\x08\xe1\x5f\xb6\x16\xb1\x2e\x77\x1d\xc9\xd5\xb2\xe3",
         "\xa3\xae\x8e\xcb\xac\x1e\x49\x5d\x87\xb1\x4d\x52\x3b\x40\x11\xef",
         "\x23\x33\x74\x0b\xfc\x96\xd8\xc0\xb7\x13\xfc\xdf\x3e\xa0\xdb\x74"},
    };
    inline const char* const x_dec[1][4] = {
        {"\x8b\x10\xcb\xb7\x86\x0e\x52\xc3\xf6\xc4\x5d\x58\x15\xe2\xe1\x57",
         "\xad\x1b\x6b\xe1\xc6\xb0\x85\x6b\x57\x3b\x7e\x1f\x8c\x7e\xf1\xac",
         "\x7c\xb4\xb6\xbf\xe6\x63\x67\x3b\x29\x9f\xb4\xeb\x75\xe0\x3a\x32",
         "\xb3\x1a\x34\xa4\x8b\x08\x3e\x28\x23\xce\xc3\x9b\x9f\x12\xe3\xd9"},
    };
}
