#!/bin/bash
# norelic.sh IN OUT: copies src/utils.cpp, blanking exactly the lines that need
# relic (which is not installed here); everything else is kept as it is.
set -e
mkdir -p "$(dirname "$2")"
{
    echo "#line 1 \"$1\""
    sed -E \
        -e 's|^#include "ppke/relic_wrapper/relic_api\.h"[[:space:]]*$||' \
        -e 's|^[[:space:]]*static relicxx::relicResourceHandle\* *g_relic_handle_;[[:space:]]*$||' \
        -e 's|^[[:space:]]*g_relic_handle_ = new relicxx::relicResourceHandle\(true\);[[:space:]]*$||' \
        -e 's|^[[:space:]]*delete g_relic_handle_;[[:space:]]*$||' \
        -e 's|^[[:space:]]*g_relic_handle_ = nullptr;[[:space:]]*$||' \
        "$1"
} > "$2"
