"""An S3 service with its objects in memory, on the loopback network.

The code under test reaches it with the real S3 filesystem (s3fs), so that all but the service
itself is what would be used. Objects are all there is: there are no directories. If markers is
true there is, as from some services and tools, an empty object with a name ending in a slash for
each directory, that is listed in it. Requests for which deny(number, method, bucket, key or prefix) is true are answered with an error.
"""
import hashlib
import http.server
import threading
from urllib.parse import parse_qs, unquote, urlsplit
from xml.sax.saxutils import escape

PAGE = 3  # keys in a page of a listing, few so that listings have several pages


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    wbufsize = -1
    disable_nagle_algorithm = True

    def log_message(self, *args):
        pass

    def handle_expect_100(self):
        result = super().handle_expect_100()
        self.wfile.flush()
        return result

    def _reply(self, status, body=b"", headers=None, length=None):
        self.send_response(status)
        for k, v in (headers or {}).items():
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body) if length is None else length))
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(body)

    def _error(self, status, code):
        self._reply(status, b"" if self.command == "HEAD" else ("<?xml version='1.0'?><Error><Code>%s</Code><Message>%s</Message></Error>" % (code, code)).encode(),
                    {"Content-Type": "application/xml"})

    def _xml(self, body, status=200):
        self._reply(status, b'<?xml version="1.0" encoding="UTF-8"?>' + body.encode("utf-8"), {"Content-Type": "application/xml"})

    def _body(self):
        n = self.headers.get("Content-Length")
        if n is not None:
            data = self.rfile.read(int(n))
        elif self.headers.get("Transfer-Encoding", "").lower() == "chunked":
            data = b""
            while True:
                size = int(self.rfile.readline().split(b";")[0], 16)
                if size == 0:
                    self.rfile.readline()
                    break
                data += self.rfile.read(size)
                self.rfile.readline()
        else:
            data = b""
        if "aws-chunked" in self.headers.get("Content-Encoding", ""):
            plain = b""
            while data:
                head, _, data = data.partition(b"\r\n")
                size = int(head.split(b";")[0], 16)
                if size == 0:
                    break
                plain += data[:size]
                data = data[size + 2:]
            data = plain
        return data

    def _handle(self):
        srv = self.server
        url = urlsplit(self.path)
        query = {k: v[0] for k, v in parse_qs(url.query, keep_blank_values=True).items()}
        bucket, _, key = unquote(url.path).lstrip("/").partition("/")
        body = self._body()
        with srv.lock:
            srv.requests.append((self.command, bucket, key or query.get("prefix", "")))
            if srv.deny is not None and srv.deny(len(srv.requests), *srv.requests[-1]):
                return self._error(403, "AccessDenied")
            if not bucket:
                return self._xml("<ListAllMyBucketsResult><Buckets>%s</Buckets></ListAllMyBucketsResult>" % "".join(
                    "<Bucket><Name>%s</Name><CreationDate>2020-01-01T00:00:00.000Z</CreationDate></Bucket>" % b for b in sorted(srv.buckets)))
            if not key and self.command == "PUT":
                srv.buckets.setdefault(bucket, {})
                return self._reply(200)
            objects = srv.buckets.get(bucket)
            if objects is None:
                return self._error(404, "NoSuchBucket")
            return getattr(self, "_do_" + self.command.lower())(objects, bucket, key, query, body)

    do_GET = do_PUT = do_HEAD = do_DELETE = do_POST = _handle

    def _do_head(self, objects, bucket, key, query, body):
        if not key:
            return self._reply(200)
        if key not in objects:
            return self._error(404, "NoSuchKey")
        return self._reply(200, headers=self._meta(objects[key]), length=len(objects[key]))

    @staticmethod
    def _meta(data):
        return {"ETag": '"%s"' % hashlib.md5(data).hexdigest(), "Last-Modified": "Wed, 01 Jan 2020 00:00:00 GMT", "Content-Type": "application/octet-stream"}

    def _do_get(self, objects, bucket, key, query, body):
        if not key:
            return self._list(objects, bucket, query)
        if key not in objects:
            return self._error(404, "NoSuchKey")
        data = objects[key]
        rng = self.headers.get("Range")
        if rng:
            a, _, b = rng.split("=")[1].partition("-")
            if a == "":
                a, b = max(0, len(data) - int(b)), len(data) - 1
            a, b = int(a), min(int(b) if b != "" else len(data) - 1, len(data) - 1)
            if a >= len(data):
                return self._error(416, "InvalidRange")
            return self._reply(206, data[a:b + 1], dict(self._meta(data), **{"Content-Range": "bytes %d-%d/%d" % (a, b, len(data))}))
        return self._reply(200, data, self._meta(data))

    def _list(self, objects, bucket, query):
        prefix, delimiter = query.get("prefix", ""), query.get("delimiter", "")
        entries = {}
        for k in sorted(objects):
            if k.startswith(prefix):
                rest = k[len(prefix):]
                if delimiter and delimiter in rest:
                    entries[prefix + rest.split(delimiter)[0] + delimiter] = None
                else:
                    entries[k] = objects[k]
        names = sorted(entries)
        after = query.get("continuation-token", "")
        names = [n for n in names if n > after] if after else names
        size = min(int(query.get("max-keys", "1000")), self.server.page)
        more, names = len(names) > size, names[:size]
        enc = escape
        if query.get("encoding-type") == "url":
            from urllib.parse import quote
            enc = quote
        body = "".join("<Contents><Key>%s</Key><LastModified>2020-01-01T00:00:00.000Z</LastModified><ETag>&quot;%s&quot;</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass></Contents>" % (
            enc(n), hashlib.md5(entries[n]).hexdigest(), len(entries[n])) for n in names if entries[n] is not None)
        body += "".join("<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>" % enc(n) for n in names if entries[n] is None)
        self._xml("<ListBucketResult><Name>%s</Name><Prefix>%s</Prefix><KeyCount>%d</KeyCount><MaxKeys>%d</MaxKeys>%s<IsTruncated>%s</IsTruncated>%s%s</ListBucketResult>" % (
            bucket, enc(prefix), len(names), size, "<EncodingType>url</EncodingType>" if query.get("encoding-type") == "url" else "", "true" if more else "false",
            "<NextContinuationToken>%s</NextContinuationToken>" % escape(names[-1]) if more else "", body))

    def _do_put(self, objects, bucket, key, query, body):
        source = self.headers.get("x-amz-copy-source")
        if source:
            b, _, k = unquote(source).lstrip("/").partition("/")
            data = self.server.buckets.get(b, {}).get(k)
            if data is None:
                return self._error(404, "NoSuchKey")
            self.server.store(objects, key, data)
            return self._xml("<CopyObjectResult><LastModified>2020-01-01T00:00:00.000Z</LastModified><ETag>&quot;%s&quot;</ETag></CopyObjectResult>" % hashlib.md5(data).hexdigest())
        self.server.store(objects, key, body)
        return self._reply(200, headers={"ETag": '"%s"' % hashlib.md5(body).hexdigest()})

    def _do_delete(self, objects, bucket, key, query, body):
        if key:
            objects.pop(key, None)
        else:
            del self.server.buckets[bucket]
        return self._reply(204)

    def _do_post(self, objects, bucket, key, query, body):
        if "delete" not in query:
            return self._error(501, "NotImplemented")
        import xml.etree.ElementTree as ET
        out = ""
        for e in ET.fromstring(body).iter():
            if e.tag.endswith("Key"):
                objects.pop(e.text, None)
                out += "<Deleted><Key>%s</Key></Deleted>" % escape(e.text)
        return self._xml("<DeleteResult>%s</DeleteResult>" % out)


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True

    def __init__(self):
        super().__init__(("127.0.0.1", 0), Handler)
        self.lock = threading.Lock()
        self.buckets, self.deny, self.requests, self.page, self.markers = {}, None, [], PAGE, False
        threading.Thread(target=self.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()

    @property
    def endpoint(self):
        return "http://127.0.0.1:%d" % self.server_address[1]

    def store(self, objects, key, data):
        if data is not None:
            objects[key] = data
        if self.markers:
            parts = key.split("/")[:len(key.split("/")) - (0 if data is None else 1)]
            for n in range(1, len(parts) + 1):
                objects.setdefault("/".join(parts[:n]).rstrip("/") + "/", b"")

    def put(self, bucket, tree):
        """Have the bucket with this tree, None is for a directory (there only if there are markers)."""
        with self.lock:
            self.buckets[bucket] = {}
        self.add(bucket, tree)

    def add(self, bucket, tree):
        """Add this tree to what is in the bucket."""
        with self.lock:
            for p, d in tree.items():
                self.store(self.buckets[bucket], p, d)

    def tree(self, bucket):
        """All objects except markers."""
        with self.lock:
            return {p: d for p, d in self.buckets.get(bucket, {}).items() if not p.endswith("/")}


_SERVER = None


def server():
    """The service of this process, emptied."""
    global _SERVER
    if _SERVER is None:
        _SERVER = Server()
    with _SERVER.lock:
        _SERVER.buckets.clear()
        _SERVER.deny = None
        _SERVER.requests.clear()
        _SERVER.page = PAGE
        _SERVER.markers = False
    from s3fs import S3FileSystem
    for fs in list(getattr(S3FileSystem, "_cache", {}).values()):
        fs.invalidate_cache()
    return _SERVER
